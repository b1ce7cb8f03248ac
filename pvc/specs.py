"""Contracts of the Image_Function API.  Each operation is given once, for its full-region form; the contract of every
overload is derived from it.  Terms are built over the state before the call."""
from term import *
import term, mem
import exec as X
class _D: k="double"; size=8
DBL=_D()
from mem import *
from exec import tobv, topoly, exactpoly, iteP, read_ite

class Img:
    """view of an image at entry"""
    def __init__(s,c,name,o,key): s.c=c; s.name=name; s.o=o; s.E=o.f["E"]; s.w=o.f["w"]; s.h=o.f["h"]; s.cc=o.f["cc"]; s.rs=o.f["rs"]; s.data=o.f["data"]; s.es=o.f["es"].cval(); s.key=key; s.type=o.f["type"]; s.al=o.f["al"]
    def at(s,row,comp):
        """value of component `comp` of row `row` before the call"""
        return s.c.read(s.data,(row*s.rs+comp)*s.es,s.es)
    def px(s,row,col,j,cc=None):
        """component j of pixel (col,row) before the call"""
        return s.at(row,col*(s.cc if cc is None else cc)+j)
def badcc(i): return bor(eq(i.cc,1),eq(i.cc,3),eq(i.cc,4))
class Ctx:
    """evaluation context of a contract; S0 is the pre-state"""
    def __init__(s,S0): s.S0=S0; s.v={}
    def read(s,r,off,size): return read_ite(s.S0,r,s.S0.mem.get(r,INIT),off,size)
    def __getattr__(s,k):
        try: return s.__dict__["v"][k]
        except KeyError: raise AttributeError(k)
    def idx(s,name,count):
        a=var(name,0,None,fresh=True,kind="idx"); return atom_of(a),a
    def grid(s,img,x,y,w,h,ch,f,rowf=None):
        """template: for r<h, q<w*ch : img[(y+r), x*ch+q] = f(r,q)"""
        ra,r=s.idx("r",h); qa,q=s.idx("q",w)
        n=w*ch
        val=s.with_idx([(ra,h),(qa,n)],lambda:f(r,q))
        return T([(ra,h),(qa,n)],((y+r)*img.rs+x*ch+q)*img.es,img.es,val,box=(y,x*ch,h,n,ONE))
    def pixgrid(s,img,x,y,w,h,och,j,f):
        """for r<h, c<w : component j of pixel (x+c,y+r) := f(r,c)"""
        ra,r=s.idx("r",h); qa,q=s.idx("c",w)
        val=s.with_idx([(ra,h),(qa,w)],lambda:f(r,q))
        return T([(ra,h),(qa,w)],((y+r)*img.rs+(x+q)*och+j)*img.es,img.es,val,box=(y,x*och,h,w,P(och)))
    def with_idx(s,rng,f):
        old=s.S0
        s.S0=old.copy(); 
        for a,n in rng: s.S0.facts+=[ge0(Poly.of(a)),lt(Poly.of(a),n)]
        s.S0.facts=[x for x in s.S0.facts if x is not TRUE]
        try: return f()
        finally: s.S0=old
OPS={}
class Op:
    def __init__(s,name,full,cond,eff,form,outcc=None,alias=None,props=None,kind=None,ret=None,cases=None,only=None,forms=None,outsize=None,wholesize=None,sorts=None):
        s.forms=[(p.split(),r,f) for p,r,f in forms] if forms is not None else None; s.outsize=outsize; s.wholesize=wholesize
        s.cases=cases or [lambda c:[]]; s.only=only
        s.name=name; s.full=full.split(); s.cond=cond; s.eff=eff; s.form=form; s.outcc=outcc; s.alias=alias or []; s.props=props or []; s.kind=kind; s.ret=ret
def op(name,full,cond=None,eff=None,form=None,**k):
    o=Op(name,full,cond or (lambda c:[]),eff,form,**k); OPS.setdefault(name,[]).append(o); return o
def roi_ok(img,x,y,w,h):
    return [bnot(img.E),badcc(img),ge0(w-1),ge0(h-1),le(x+w,img.w),le(y+h,img.h)]
def same_cc(*im): return [eq(im[0].cc,i.cc) for i in im[1:]]
FULL255=bvc(255,8)
# ---------------------------------------------------------------- pixelwise
BIN="in1:I x1 y1 in2:I x2 y2 out:O xo yo w h"
UN="in:I xi yi out:O xo yo w h"
def bincond(c): return roi_ok(c.in1,c.x1,c.y1,c.w,c.h)+roi_ok(c.in2,c.x2,c.y2,c.w,c.h)+roi_ok(c.out,c.xo,c.yo,c.w,c.h)+same_cc(c.in1,c.in2,c.out)
def bineff(f):
    def e(c):
        cc=c.out.cc
        return {"writes":[(c.out,[c.grid(c.out,c.xo,c.yo,c.w,c.h,cc,lambda r,q:f(c.in1.at(c.y1+r,c.x1*cc+q),c.in2.at(c.y2+r,c.x2*cc+q)))])]}
    return e
def uncond(c): return roi_ok(c.inp,c.xi,c.yi,c.w,c.h)+roi_ok(c.out,c.xo,c.yo,c.w,c.h)+same_cc(c.inp,c.out)
def uneff(f):
    def e(c):
        cc=c.out.cc
        return {"writes":[(c.out,[c.grid(c.out,c.xo,c.yo,c.w,c.h,cc,lambda r,q:f(c,c.inp.at(c.yi+r,c.xi*cc+q)))])]}
    return e
sub8=lambda a,b: bvop("sub",a,b)
BINALIAS=[("in1","out"),("in2","out")]
def binop(name,f): op(name,BIN,bincond,bineff(f),"binary",outcc=lambda c:c.in1.cc,alias=BINALIAS,props=["C01"],kind="pixel")
binop("AbsoluteDifference",lambda a,b: ite(bvult(b,a),sub8(a,b),sub8(b,a)))
binop("BitwiseAnd",lambda a,b: bvop("and",a,b))
binop("BitwiseOr",lambda a,b: bvop("or",a,b))
binop("BitwiseXor",lambda a,b: bvop("xor",a,b))
binop("Maximum",lambda a,b: ite(bvult(a,b),b,a))
binop("Minimum",lambda a,b: ite(bvult(a,b),a,b))
binop("Subtract",lambda a,b: ite(bvult(b,a),sub8(a,b),bvc(0,8)))
UNALIAS=[("inp","out")]
def unop(name,full,f,**k): op(name,full,k.pop("cond",uncond),uneff(f),"unary",outcc=lambda c:c.inp.cc,alias=UNALIAS,props=["C01"],kind="pixel",**k)
unop("Invert","inp:I xi yi out:O xo yo w h",lambda c,v: bvop("xor",v,FULL255))
unop("Threshold","inp:I xi yi out:O xo yo w h threshold:b",lambda c,v: ite(bvult(v,c.threshold),bvc(0,8),FULL255),
     cond=lambda c: uncond(c)+[eq(c.inp.cc,1)])
unop("Threshold","inp:I xi yi out:O xo yo w h lo:b hi:b",lambda c,v: ite(bor(bvult(v,c.lo),bvult(c.hi,v)),bvc(0,8),FULL255),
     cond=lambda c: uncond(c)+[eq(c.inp.cc,1),bvule(c.lo,c.hi)])
unop("LookupTable","inp:I xi yi out:O xo yo w h table:T",lambda c,v: c.read(c.table["data"],b2i(v),1),
     cond=lambda c: uncond(c)+[eq(c.table["n"],256)])
# ---------------------------------------------------------------- floating-point pixel functions: IEEE operations are uninterpreted
def gammatable(c,i):
    D=bvc; k=lambda v: X.fpconst(v,8)
    fo=lambda o,a,b: X.fpop(o,[a,b],DBL)
    data=fo("fadd",fo("fmul",fo("fmul",c.a,X.fpfun("pow",[fo("fdiv",uf("int2fp64",[i],64),k(255.0)),c.gamma],64)),k(255.0)),k(0.5))
    return ite(X.fpcmp(4,data,k(256.0),64),uf("fptoui8_64",[data],8),FULL255)
unop("GammaCorrection","inp:I xi yi out:O xo yo w h a:d gamma:d",lambda c,v: gammatable(c,b2i(v)),
     cond=lambda c: uncond(c)+[bnot(X.fpcmp(4,c.a,X.fpconst(0.0,8),64)),bnot(X.fpcmp(4,c.gamma,X.fpconst(0.0,8),64))])
def anyvalue(c):
    t=c.grid(c.out,c.xo,c.yo,c.w,c.h,c.out.cc,lambda r,q:bvc(0,8)); t.val=None
    return {"writes":[(c.out,[t])]}
op("Normalize","inp:I xi yi out:O xo yo w h",uncond,anyvalue,"unary",outcc=lambda c:c.inp.cc,alias=UNALIAS,props=["C01"],kind="pixel")
# ---------------------------------------------------------------- geometric
op("Copy","inp:I xi yi out:O xo yo w h",uncond,uneff(lambda c,v:v),"unary",outcc=lambda c:c.inp.cc,alias=UNALIAS,props=["C06"],kind="pixel")
op("Fill","image:O x y w h value:b",lambda c: roi_ok(c.image,c.x,c.y,c.w,c.h),
   lambda c:{"writes":[(c.image,[c.grid(c.image,c.x,c.y,c.w,c.h,c.image.cc,lambda r,q:c.value)])]},"inplace",props=["C06"],kind="pixel")

# whole-image forms that act on the image object itself
op("Fill","image:O value:b",lambda c:[],lambda c:{} if c.case==0 else {"writes":[(c.image,[c.grid(c.image,ZERO,ZERO,c.image.rs,c.image.h,ONE,lambda r,q:c.value)])]},"inplace",
   props=["C06"],kind="pixel",cases=[lambda c:[c.image.E],lambda c:[bnot(c.image.E)]],only=[0])
op("Copy","inp:I out:O",lambda c:[bnot(c.inp.E),badcc(c.inp),bnot(c.out.E),badcc(c.out),eq(c.inp.w,c.out.w),eq(c.inp.h,c.out.h),bveq(c.inp.type,c.out.type)],
   lambda c:{"assign":[("out","inp")]},"unary",props=["C06"],kind="pixel",only=[0])
# ---------------------------------------------------------------- channel and depth conversion
def convcond(c): return roi_ok(c.inp,c.xi,c.yi,c.w,c.h)+roi_ok(c.out,c.xo,c.yo,c.w,c.h)
CONV="inp:I xi yi out:O xo yo w h"
op("ConvertTo16Bit","inp:I xi yi out:O16 xo yo w h",lambda c: convcond(c)+same_cc(c.inp,c.out),uneff(lambda c,v: concat(v,bvc(0,8))),"unary",
   outcc=lambda c:c.inp.cc,props=["C07"],kind="depth")
op("ConvertTo8Bit","inp:I16 xi yi out:O xo yo w h",lambda c: convcond(c)+same_cc(c.inp,c.out),uneff(lambda c,v: extract(v,15,8)),"unary",
   outcc=lambda c:c.inp.cc,props=["C07"],kind="depth")
def pixeff(och,vals,out="out",xo="xo",yo="yo"):
    """component j of every output pixel := vals(c,r,q)[j]"""
    def e(c):
        o=c.v[out]; n=len(vals(c,ZERO,ZERO))
        return {"writes":[(o,[c.pixgrid(o,c.v[xo],c.v[yo],c.w,c.h,och,j,lambda r,q,j=j: vals(c,r,q)[j]) for j in range(n)])]}
    return e
def inpx(c,r,q,j,cc=None): return c.inp.px(c.yi+r,c.xi+q,j,cc)
op("RgbToBgr",CONV,lambda c: convcond(c)+[eq(c.inp.cc,3),eq(c.out.cc,3)],pixeff(3,lambda c,r,q:[inpx(c,r,q,2-j,3) for j in range(3)]),outcc=lambda c:P(3),props=["C07"],kind="pixel")
op("RgbToRgba",CONV,lambda c: convcond(c)+[eq(c.inp.cc,3),eq(c.out.cc,4)],pixeff(4,lambda c,r,q:[inpx(c,r,q,j,3) for j in range(3)]+[FULL255]),outcc=lambda c:P(4),props=["C07"],kind="pixel")
op("RgbaToRgb",CONV,lambda c: convcond(c)+[eq(c.inp.cc,4),eq(c.out.cc,3)],pixeff(3,lambda c,r,q:[inpx(c,r,q,j,4) for j in range(3)]),outcc=lambda c:P(3),props=["C07"],kind="pixel")
op("ConvertToRgb",CONV,lambda c: convcond(c)+[eq(c.out.cc,3)],
   pixeff(3,lambda c,r,q:[inpx(c,r,q,0 if c.case==0 else j,[1,3,4][c.case]) for j in range(3)]),outcc=lambda c:P(3),props=["C07"],kind="pixel",
   cases=[lambda c,n=n:[eq(c.inp.cc,n)] for n in (1,3,4)])
mean3=lambda a,b,c: i2bv(fdiv(b2i(a)+b2i(b)+b2i(c),3),8)
op("ConvertToGrayScale",CONV,lambda c: convcond(c)+[eq(c.out.cc,1)],
   pixeff(1,lambda c,r,q:[inpx(c,r,q,0,1) if c.case==0 else mean3(*[inpx(c,r,q,j,[1,3,4][c.case]) for j in range(3)])]),outcc=lambda c:ONE,props=["C07"],kind="pixel",
   cases=[lambda c,n=n:[eq(c.inp.cc,n)] for n in (1,3,4)])
op("ExtractChannel",CONV+" id:b",lambda c: convcond(c)+[eq(c.out.cc,1),lt(b2i(c.id),c.inp.cc)],
   pixeff(1,lambda c,r,q:[c.inp.at(c.yi+r,(c.xi+q)*c.inp.cc+b2i(c.id))]),outcc=lambda c:ONE,props=["C07"],kind="pixel")
op("ReplaceChannel","ch:I xc yc rgb:O xo yo w h id:b",lambda c: roi_ok(c.ch,c.xc,c.yc,c.w,c.h)+roi_ok(c.rgb,c.xo,c.yo,c.w,c.h)+[eq(c.ch.cc,1),eq(c.rgb.cc,3),bvult(c.id,bvc(3,8))],
   lambda c:{"writes":[(c.rgb,[c.pixgrid(c.rgb,c.xo,c.yo,c.w,c.h,3,b2i(c.id),lambda r,q:c.ch.px(c.yc+r,c.xc+q,0,1))])]},props=["C07"],kind="pixel")
op("Merge","in1:I x1 y1 in2:I x2 y2 in3:I x3 y3 out:O xo yo w h",
   lambda c: roi_ok(c.in1,c.x1,c.y1,c.w,c.h)+roi_ok(c.in2,c.x2,c.y2,c.w,c.h)+roi_ok(c.in3,c.x3,c.y3,c.w,c.h)+roi_ok(c.out,c.xo,c.yo,c.w,c.h)+[eq(i.cc,1) for i in (c.in1,c.in2,c.in3)]+[eq(c.out.cc,3)],
   pixeff(3,lambda c,r,q:[c.v["in%d"%j].px(c.v["y%d"%j]+r,c.v["x%d"%j]+q,0,1) for j in (1,2,3)]),outcc=lambda c:P(3),props=["C07"],kind="pixel")
op("Split","inp:I xi yi out1:O x1 y1 out2:O x2 y2 out3:O x3 y3 w h",
   lambda c: roi_ok(c.inp,c.xi,c.yi,c.w,c.h)+roi_ok(c.out1,c.x1,c.y1,c.w,c.h)+roi_ok(c.out2,c.x2,c.y2,c.w,c.h)+roi_ok(c.out3,c.x3,c.y3,c.w,c.h)+[eq(i.cc,1) for i in (c.out1,c.out2,c.out3)]+[eq(c.inp.cc,3)],
   lambda c:{"writes":[(c.v["out%d"%j],[c.pixgrid(c.v["out%d"%j],c.v["x%d"%j],c.v["y%d"%j],c.w,c.h,1,0,lambda r,q,j=j: inpx(c,r,q,j-1,3))]) for j in (1,2,3)]},props=["C07"],kind="pixel")
# ---------------------------------------------------------------- geometric functions
def graycond(c): return convcond(c)+[eq(c.inp.cc,1),eq(c.out.cc,1)]
def flipcase(h,v): return lambda c:[c.horizontal if h else bnot(c.horizontal),c.vertical if v else bnot(c.vertical)]
FLIPS=[(0,0),(1,0),(0,1),(1,1)]
op("Flip",CONV+" horizontal:f vertical:f",graycond,
   pixeff(1,lambda c,r,q:[c.inp.px(c.yi+(c.h-1-r if FLIPS[c.case][1] else r),c.xi+(c.w-1-q if FLIPS[c.case][0] else q),0,1)]),outcc=lambda c:ONE,props=["C06"],kind="pixel",
   cases=[flipcase(*f) for f in FLIPS])
def transcond(c): return roi_ok(c.inp,c.xi,c.yi,c.w,c.h)+roi_ok(c.out,c.xo,c.yo,c.h,c.w)+[eq(c.inp.cc,1),eq(c.out.cc,1)]
def transeff(c):
    o=c.out
    ra,r=c.idx("r",c.w); qa,q=c.idx("c",c.h)
    val=c.with_idx([(ra,c.w),(qa,c.h)],lambda:c.inp.px(c.yi+q,c.xi+r,0,1))
    return {"writes":[(o,[T([(ra,c.w),(qa,c.h)],((c.yo+r)*o.rs+c.xo+q)*o.es,o.es,val,box=(c.yo,c.xo,c.w,c.h,ONE))])]}
op("Transpose",CONV,transcond,transeff,outcc=lambda c:ONE,props=["C06"],kind="pixel",outsize=lambda c:(c.h,c.w),
   wholesize=lambda c,im:[])
def resizecond(c): return roi_ok(c.inp,c.xi,c.yi,c.wi,c.hi)+roi_ok(c.out,c.xo,c.yo,c.wo,c.ho)+[eq(c.inp.cc,c.out.cc)]
def resizeeff(c):
    o=c.out; n=[1,3,4][c.case]; ts=[]
    for j in range(n):
        ra,r=c.idx("r",c.ho); qa,q=c.idx("c",c.wo)
        def val():
            return c.inp.at(c.yi+fdiv(r*c.hi,c.ho),(c.xi+fdiv(q*c.wi,c.wo))*n+j)
        ts.append(T([(ra,c.ho),(qa,c.wo)],((c.yo+r)*o.rs+(c.xo+q)*n+j)*o.es,o.es,c.with_idx([(ra,c.ho),(qa,c.wo)],val),box=(c.yo,c.xo*n,c.ho,c.wo,P(n))))
    return {"writes":[(o,ts)]}
def rwhole(c):
    for k in ("xi","yi","xo","yo"): c.v[k]=ZERO
    c.v["wi"]=c.inp.w; c.v["hi"]=c.inp.h
    cs=[bnot(c.inp.E)]
    if "out" in c.v: c.v["wo"]=c.out.w; c.v["ho"]=c.out.h; cs.append(bnot(c.out.E))
    return cs
def rpart(c): c.v["xo"]=ZERO; c.v["yo"]=ZERO; return []
op("Resize","inp:I xi yi wi hi out:O xo yo wo ho",resizecond,resizeeff,outcc=lambda c:c.inp.cc,props=["C06"],kind="pixel",outsize=lambda c:(c.wo,c.ho),
   cases=[lambda c,n=n:[eq(c.inp.cc,n)] for n in (1,3,4)],
   forms=[("inp:I wo ho",True,rwhole),("inp:I out:O",False,rwhole),("inp:I xi yi wi hi wo ho",True,rpart)])
op("SetPixel","image:O x y value:b",lambda c:[bnot(c.image.E),lt(c.x,c.image.w),lt(c.y,c.image.h),eq(c.image.cc,1)],
   lambda c:{"writes":[(c.image,[T([],(c.y*c.image.rs+c.x)*c.image.es,c.image.es,c.value)])]},props=["C06"],kind="pixel",forms=[])
def setpixels(c):
    im=c.image; ka,k=c.idx("k",c.X["n"])
    xk=c.with_idx([(ka,c.X["n"])],lambda:b2iv(c.read(c.X["data"],k*4,4))); yk=c.with_idx([(ka,c.X["n"])],lambda:b2iv(c.read(c.Y["data"],k*4,4)))
    return {"writes":[(im,[T([(ka,c.X["n"])],(yk*im.rs+xk)*im.es,im.es,c.value)])]}
def b2iv(x): return x if isinstance(x,Poly) else b2i(x)
def setpixelscond(c):
    n=c.X["n"]
    bad=lambda k: bor(le(c.image.w,b2iv(c.read(c.X["data"],k*4,4))),le(c.image.h,b2iv(c.read(c.Y["data"],k*4,4))))
    return [bnot(c.image.E),eq(c.image.cc,1),ge0(n-1),eq(n,c.Y["n"]),eq0(sigma(c,n,lambda k:one_if(bad(k))))]
op("SetPixel","image:O X:U Y:U value:b",setpixelscond,setpixels,props=["C06"],kind="pixel",forms=[])
op("GetPixel","image:I x y",lambda c:[bnot(c.image.E),lt(c.x,c.image.w),lt(c.y,c.image.h),eq(c.image.cc,1)],
   lambda c:{"ret":c.image.at(c.y,c.x)},props=["C05"],kind="pixel",forms=[])
# ---------------------------------------------------------------- reductions
def sigma(c,n,f):
    """sum of f(k) for k<n"""
    ka,k=c.idx("k",n)
    return sum_(ka,n,c.with_idx([(ka,n)],lambda:f(k)))
def count(c,im,x,y,ch,f):
    return sigma(c,c.h,lambda r:sigma(c,c.w*ch,lambda q:f(im.at(y+r,x*ch+q))))
ROI="image:I x y w h"
def roicond(c): return roi_ok(c.image,c.x,c.y,c.w,c.h)
op("Sum",ROI,lambda c: roicond(c)+[eq(c.image.cc,1)],lambda c:{"ret":count(c,c.image,c.x,c.y,1,b2i)},props=["C05"],kind="red")
def one_if(b): return iteP(b,ONE,ZERO)
op("IsEqual","in1:I x1 y1 in2:I x2 y2 w h",lambda c: roi_ok(c.in1,c.x1,c.y1,c.w,c.h)+roi_ok(c.in2,c.x2,c.y2,c.w,c.h)+same_cc(c.in1,c.in2),
   lambda c:{"ret":eq0(sigma(c,c.h,lambda r:sigma(c,c.w*c.in1.cc,lambda q:one_if(bnot(bveq(c.in1.at(c.y1+r,c.x1*c.in1.cc+q),c.in2.at(c.y2+r,c.x2*c.in1.cc+q)))))))},props=["C05"],kind="red")
def histval(c,im,x,y,n,k,mask=None):
    """number of components whose bin is k; the bin of channel j and value v is v*n+j"""
    on=lambda r,q: TRUE if mask is None else bnot(bveq(c.mask.at(c.my+r,c.mx+q),bvc(0,8)))
    if n==1: px=lambda r,q: one_if(band(on(r,q),eq0(b2i(im.at(y+r,x+q))-k)))
    else: px=lambda r,q: sigma(c,P(n),lambda j:one_if(band(on(r,q),eq0(b2i(im.at(y+r,(x+q)*n+j))*n+j-k))))
    return sigma(c,c.h,lambda r:sigma(c,c.w,lambda q:px(r,q)))
def histeff(mask):
    def e(c):
        n=[1,3,4][c.case]
        return {"vec":{c.histogram_key:(P(256*n),lambda k:histval(c,c.image,c.x,c.y,n,k,mask))}}
    return e
CC134=[lambda c,n=n:[eq(c.image.cc,n)] for n in (1,3,4)]
op("Histogram",ROI+" histogram:V",roicond,histeff(None),props=["C05"],kind="red",cases=CC134)
op("Histogram","image:I x y mask:I mx my w h histogram:V",lambda c: roicond(c)+roi_ok(c.mask,c.mx,c.my,c.w,c.h)+[eq(c.mask.cc,1)],histeff(True),props=["C05"],kind="red",cases=CC134)
def profeff(c):
    im=c.image; W=c.w*im.cc
    if c.case==0: return {"vec":{c.projection_key:(W,lambda k:sigma(c,c.h,lambda r:b2i(im.at(c.y+r,c.x*im.cc+k))))}}
    return {"vec":{c.projection_key:(c.h,lambda k:sigma(c,W,lambda q:b2i(im.at(c.y+k,c.x*im.cc+q))))}}
op("ProjectionProfile",ROI+" horizontal:f projection:V",roicond,profeff,props=["C05"],kind="red",cases=[lambda c:[c.horizontal],lambda c:[bnot(c.horizontal)]])
def acceff(c):
    im=c.image; W=c.w*im.cc
    def val(k):
        r=fdiv(k,W); q=k-r*W
        return c.read(c.result["data"],k*4,4)+b2i(im.at(c.y+r,c.x*im.cc+q))
    v2=lambda r,q: c.read(c.result["data"],(r*W+q)*4,4)+b2i(im.at(c.y+r,c.x*im.cc+q))
    return {"vec":{c.result_key:(W*c.h,val,(c.h,W,v2))}}
op("Accumulate",ROI+" result:V",lambda c: roicond(c)+[eq(c.result["n"],c.w*c.image.cc*c.h)],acceff,props=["C05"],kind="inout")
op("IsBinary",ROI,lambda c: roicond(c)+[eq(c.image.cc,1)],
   lambda c:{"ret":ge0(2-sigma(c,P(256),lambda k:one_if(bnot(eq0(histval(c,c.image,c.x,c.y,1,k))))))},props=["C05"],kind="red")
# ---------------------------------------------------------------- OpenCL: same formulas; some operations take gray-scale images only
op("CL.Fill","image:O x y w h value:b",lambda c: roi_ok(c.image,c.x,c.y,c.w,c.h)+[eq(c.image.cc,1)],
   lambda c:{"writes":[(c.image,[c.grid(c.image,c.x,c.y,c.w,c.h,ONE,lambda r,q:c.value)])]},"inplace",props=["C18"],kind="pixel")
OPS["CL.Fill"].append(OPS["Fill"][1])
op("CL.Histogram",ROI+" histogram:V",lambda c: roicond(c)+[eq(c.image.cc,1)],lambda c:{"vec":{c.histogram_key:(P(256),lambda k:histval(c,c.image,c.x,c.y,1,k))}},props=["C18"],kind="red")
def transfer(c):
    o=c.out; W=c.inp.w*c.inp.cc
    ra,r=c.idx("r",c.inp.h); qa,q=c.idx("q",W)
    val=c.with_idx([(ra,c.inp.h),(qa,W)],lambda:c.inp.at(r,q))
    return {"writes":[(o,[T([(ra,c.inp.h),(qa,W)],r*o.rs+q,1,val,box=(ZERO,ZERO,c.inp.h,o.rs,ONE))])]}   # row padding is unspecified
def transfercond(c): return [bnot(c.inp.E),badcc(c.inp),bnot(c.out.E),badcc(c.out),eq(c.inp.w,c.out.w),eq(c.inp.h,c.out.h),eq(c.inp.cc,c.out.cc)]
for _n in("ConvertToOpenCL","ConvertFromOpenCL"):
    op("CL."+_n,"inp:I out:O",transfercond,transfer,props=["C18"],kind="pixel",outcc=lambda c:c.inp.cc,
       forms=[("inp:I",True,lambda c:c.v.update(w=c.inp.w,h=c.inp.h) or [])])
unop("CL.GammaCorrection","inp:I xi yi out:O xo yo w h a:d gamma:d",lambda c,v: gammatable(c,b2i(v)),
     cond=lambda c: uncond(c)+[eq(c.inp.cc,1),bnot(X.fpcmp(4,c.a,X.fpconst(0.0,8),64)),bnot(X.fpcmp(4,c.gamma,X.fpconst(0.0,8),64))])
