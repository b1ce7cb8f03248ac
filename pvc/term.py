"""Hash-consed terms: integer polynomials over atoms, bit-vector expressions, booleans."""
import itertools
_ids=itertools.count(1)

class Atom:
    """integer-valued atom"""
    __slots__=("id","kind","name","args","lo","hi","_fv")
    def __repr__(s): return s.name
_atoms={}
ATOM_BY_ID={}
def _atom(kind,args,name=None,lo=None,hi=None):
    key=(kind,args)
    a=_atoms.get(key)
    if a is None:
        a=Atom(); a.id=next(_ids); a.kind=kind; a.args=args; a.lo=lo; a.hi=hi; a._fv=None
        a.name=name or f"{kind}{a.id}"
        _atoms[key]=a; ATOM_BY_ID[a.id]=a
    return a
_fresh=itertools.count(1)
def var(name,lo=None,hi=None,fresh=False,kind="var"):
    if fresh: name=f"{name}#{next(_fresh)}"
    return Poly.of(_atom(kind,(name,),name,lo,hi))
def atom_of(p):
    """the atom if p is exactly one atom"""
    if len(p.d)==1:
        (m,c),=p.d.items()
        if c==1 and len(m)==1: return m[0]
    return None

_polys={}
class Poly:
    """immutable polynomial; d: tuple-of-atoms(sorted by id) -> int coeff"""
    __slots__=("d","id","_fv","_h")
    @staticmethod
    def mk(d):
        d={m:c for m,c in d.items() if c}
        key=tuple(sorted(((tuple(a.id for a in m),c) for m,c in d.items())))
        p=_polys.get(key)
        if p is None:
            p=Poly(); p.d=d; p.id=next(_ids); p._fv=None; p._h=p.id; _polys[key]=p
        return p
    @staticmethod
    def of(a): return Poly.mk({(a,):1})
    @staticmethod
    def const(c): return Poly.mk({():c})
    def __hash__(s): return s._h
    def __eq__(s,o): return s is o
    def isconst(s): return not s.d or (len(s.d)==1 and () in s.d)
    def cval(s): return s.d.get((),0)
    def __add__(a,b):
        b=P(b); d=dict(a.d)
        for m,c in b.d.items(): d[m]=d.get(m,0)+c
        return Poly.mk(d)
    __radd__=__add__
    def __neg__(a): return Poly.mk({m:-c for m,c in a.d.items()})
    def __sub__(a,b): return a+(-P(b))
    def __rsub__(a,b): return P(b)-a
    def __mul__(a,b):
        b=P(b)
        if len(b.d)==1 and () in b.d:
            k=b.d[()]; return Poly.mk({m:c*k for m,c in a.d.items()})
        d={}
        for m,c in a.d.items():
            for n,e in b.d.items():
                k=tuple(sorted(m+n,key=lambda x:x.id)); d[k]=d.get(k,0)+c*e
        return Poly.mk(d)
    __rmul__=__mul__
    def atoms(s):
        if s._fv is None: s._fv=frozenset(a for m in s.d for a in m)
        return s._fv
    def deg(s): return max((len(m) for m in s.d),default=0)
    def __repr__(s):
        if not s.d: return "0"
        out=[]
        for m,c in sorted(s.d.items(),key=lambda x:(len(x[0]),[a.id for a in x[0]])):
            t="*".join(a.name for a in m)
            out.append(f"{c}" if not m else (t if c==1 else f"-{t}" if c==-1 else f"{c}*{t}"))
        return " + ".join(out)
def P(x):
    if isinstance(x,Poly): return x
    return Poly.const(int(x))
ZERO=P(0); ONE=P(1)

# ---------------------------------------------------------------- BV / Bool nodes
_nodes={}
class Node:
    __slots__=("op","w","args","id","_fa")
    def __repr__(s):
        if s.op=="const": return f"{s.args[0]}:{s.w}"
        return f"({s.op}{':'+str(s.w) if s.w else ''} {' '.join(map(str,s.args))})"
class BV(Node): __slots__=()
class Bool(Node): __slots__=()
def _mk(cls,op,w,args):
    key=(cls,op,w,args)
    n=_nodes.get(key)
    if n is None:
        n=cls(); n.op=op; n.w=w; n.args=args; n.id=next(_ids); n._fa=None; _nodes[key]=n
    return n
TRUE=_mk(Bool,"true",0,()); FALSE=_mk(Bool,"false",0,())
def bconst(b): return TRUE if b else FALSE
def bvar(name): return _mk(Bool,"bvar",0,(name,))
def nonneg_content(p):
    return p
def ge0(p):
    p=P(p)
    if p.isconst(): return bconst(p.cval()>=0)
    # divide by content of non-constant coefficients
    import math
    g=0
    for m,c in p.d.items():
        if m: g=math.gcd(g,c)
    if g>1:
        p=Poly.mk({m:(c//g) for m,c in p.d.items()})   # floor on the constant: integer tightening
    r=interval(p)
    if r[0] is not None and r[0]>=0: return TRUE
    if r[1] is not None and r[1]<0: return FALSE
    return _mk(Bool,"ge0",0,(p,))
def eq0(p):
    p=P(p)
    if p.isconst(): return bconst(p.cval()==0)
    import math
    g=0
    for m,c in p.d.items():
        if m: g=math.gcd(g,c)
    if p.cval()%g: return FALSE
    # canonical sign
    lead=min((m for m in p.d if m),key=lambda m:[a.id for a in m])
    if p.d[lead]<0: g=-g
    if g!=1: p=Poly.mk({m:c//g for m,c in p.d.items()})
    r=interval(p)
    if (r[0] is not None and r[0]>0) or (r[1] is not None and r[1]<0): return FALSE
    return _mk(Bool,"eq0",0,(p,))
def lt(a,b): return ge0(P(b)-P(a)-1)
def le(a,b): return ge0(P(b)-P(a))
def eq(a,b): return eq0(P(a)-P(b))
def bnot(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op=="not": return a.args[0]
    if a.op=="ge0": return ge0(-a.args[0]-1)
    if a.op=="and": return bor(*[bnot(x) for x in a.args])
    if a.op=="or": return band(*[bnot(x) for x in a.args])
    if a.op=="bvult": return _cmp("bvule",a.args[1],a.args[0])
    if a.op=="bvule": return _cmp("bvult",a.args[1],a.args[0])
    return _mk(Bool,"not",0,(a,))
def band(*xs):
    out=[]
    for x in xs:
        if x is FALSE: return FALSE
        if x is TRUE: continue
        for y in (x.args if x.op=="and" else (x,)):
            if y not in out: out.append(y)
    for y in out:
        if y.op=="not" and y.args[0] in out: return FALSE
    if not out: return TRUE
    if len(out)==1: return out[0]
    return _mk(Bool,"and",0,tuple(sorted(out,key=lambda n:n.id)))
def bor(*xs):
    out=[]
    for x in xs:
        if x is TRUE: return TRUE
        if x is FALSE: continue
        for y in (x.args if x.op=="or" else (x,)):
            if y not in out: out.append(y)
    for y in out:
        if bnot(y) in out and y.op!="or": return TRUE
    if not out: return FALSE
    if len(out)==1: return out[0]
    return _mk(Bool,"or",0,tuple(sorted(out,key=lambda n:n.id)))
def bite(c,a,b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    return band(bor(bnot(c),a),bor(c,b))
def biff(a,b):
    if a is b: return TRUE
    return bor(band(a,b),band(bnot(a),bnot(b)))

def bvc(v,w): return _mk(BV,"const",w,(v&((1<<w)-1),))
def bvvar(name,w): return _mk(BV,"var",w,(name,))
def isc(b): return b.op=="const"
def cv(b): return b.args[0]
def sgn(v,w): return v-(1<<w) if v>>(w-1) else v
COMM={"add","mul","and","or","xor"}
def bvop(op,a,b):
    w=a.w; assert w==b.w,(op,a.w,b.w); M=(1<<w)-1
    if isc(a) and isc(b):
        x,y=cv(a),cv(b)
        if op=="add": return bvc(x+y,w)
        if op=="sub": return bvc(x-y,w)
        if op=="mul": return bvc(x*y,w)
        if op=="and": return bvc(x&y,w)
        if op=="or": return bvc(x|y,w)
        if op=="xor": return bvc(x^y,w)
        if op=="shl": return bvc(x<<y,w) if y<w else bvc(0,w)
        if op=="lshr": return bvc(x>>y,w) if y<w else bvc(0,w)
        if op=="ashr": return bvc(sgn(x,w)>>min(y,w-1),w)
        if op=="udiv" and y: return bvc(x//y,w)
        if op=="urem" and y: return bvc(x%y,w)
        if op in("sdiv","srem") and y:
            p,q=sgn(x,w),sgn(y,w); d=abs(p)//abs(q); d=d if (p<0)==(q<0) else -d
            return bvc(d if op=="sdiv" else p-d*q,w)
    if op in COMM and isc(a): a,b=b,a
    if op in COMM and not isc(b) and a.id>b.id: a,b=b,a
    if isc(b):
        y=cv(b)
        if y==0:
            if op in("add","sub","or","xor","shl","lshr","ashr"): return a
            if op in("mul","and"): return b
        if y==M:
            if op=="and": return a
            if op=="or": return b
        if y==1 and op in("mul","udiv","sdiv"): return a
        if op=="shl" and y>=w: return bvc(0,w)
        if op=="and" and a.op=="zext":
            iw=a.args[0].w
            if (y&((1<<iw)-1))==(1<<iw)-1: return a
            # mask pushed below the extension
            return zext(bvop("and",a.args[0],bvc(y,iw)),w)
        if op=="lshr" and a.op=="zext" and y>=a.args[0].w: return bvc(0,w)
        if op=="lshr" and a.op=="zext": return zext(bvop("lshr",a.args[0],bvc(y,a.args[0].w)),w)
        if op=="sub": return bvop("add",a,bvc(-y,w))
        if op=="add" and a.op=="add" and isc(a.args[1]): return bvop("add",a.args[0],bvc(cv(a.args[1])+y,w))
        if op=="xor" and y==M and a.op=="xor" and isc(a.args[1]): return bvop("xor",a.args[0],bvc(cv(a.args[1])^y,w))
        if op=="shl" : return bvop("mul",a,bvc(1<<y,w))
    if a is b:
        if op in("and","or"): return a
        if op in("xor","sub"): return bvc(0,w)
    return _mk(BV,op,w,(a,b))
def zext(a,w):
    if a.w==w: return a
    if isc(a): return bvc(cv(a),w)
    if a.op=="zext": return zext(a.args[0],w)
    return _mk(BV,"zext",w,(a,))
def sext(a,w):
    if a.w==w: return a
    if isc(a): return bvc(sgn(cv(a),a.w),w)
    if a.op=="zext": return zext(a.args[0],w)
    return _mk(BV,"sext",w,(a,))
def extract(a,hi,lo):
    w=hi-lo+1
    if w==a.w: return a
    if isc(a): return bvc(cv(a)>>lo,w)
    if a.op=="concat":
        h,l=a.args
        if hi<l.w: return extract(l,hi,lo)
        if lo>=l.w: return extract(h,hi-l.w,lo-l.w)
    if a.op=="zext":
        i=a.args[0]
        if hi<i.w: return extract(i,hi,lo)
        if lo>=i.w: return bvc(0,w)
        if lo==0: return zext(i,w)
        return zext(extract(i,i.w-1,lo),w)
    if a.op=="concat": return concat(extract(a.args[0],hi-a.args[1].w,0),extract(a.args[1],a.args[1].w-1,lo))
    if a.op=="sext" and hi<a.args[0].w: return extract(a.args[0],hi,lo)
    if a.op=="extract": return extract(a.args[0],hi+a.args[1],lo+a.args[1])
    if a.op in("and","or","xor"): return bvop(a.op,extract(a.args[0],hi,lo),extract(a.args[1],hi,lo))
    if a.op=="ite": return ite(a.args[0],extract(a.args[1],hi,lo),extract(a.args[2],hi,lo))
    if a.op in("add","mul","sub") and lo==0: return bvop(a.op,extract(a.args[0],hi,0),extract(a.args[1],hi,0))
    if a.op=="mul" and isc(a.args[1]) and cv(a.args[1])==(1<<lo) and a.args[0].op=="zext" and a.args[0].args[0].w+lo<=a.w:
        # logical shift left of a zero-extended value: plain slice
        return extract(zext(a.args[0].args[0],a.w),hi-lo,0)
    if a.op=="i2bv" and lo==0: return i2bv(a.args[0],w)
    return _mk(BV,"extract",w,(a,hi,lo)) if False else _mk(BV,"extract",w,(a,lo))
def trunc(a,w): return extract(a,w-1,0)
def concat(h,l):
    w=h.w+l.w
    if isc(h) and isc(l): return bvc((cv(h)<<l.w)|cv(l),w)
    if isc(h) and cv(h)==0: return zext(l,w)
    if h.op=="extract" and l.op=="extract" and h.args[0] is l.args[0] and h.args[1]==l.args[1]+l.w:
        return extract(h.args[0],h.args[1]+h.w-1,l.args[1])
    if h.op=="extract" and l is not None and h.args[0].op!="" and h.args[1]==l.w and l.op=="extract" and False: pass
    if l.op=="concat" and h.op=="extract" and l.args[0].op=="extract" and h.args[0] is l.args[0].args[0] and h.args[1]==l.args[0].args[1]+l.args[0].w:
        return concat(concat(h,l.args[0]),l.args[1])
    return _mk(BV,"concat",w,(h,l))
def ite(c,a,b):
    if isinstance(a,Bool): return bite(c,a,b)
    if isinstance(a,Poly): return iteP(c,a,b)
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op=="not": c,a,b=c.args[0],b,a
    if a.op=="ite" and a.args[0] is c: a=a.args[1]
    if b.op=="ite" and b.args[0] is c: b=b.args[2]
    if isc(a) and not isc(b) or True:
        pass
    return _mk(BV,"ite",a.w,(c,a,b))
def intlike(a):
    while a.op=="zext": a=a.args[0]
    return a.op=="i2bv" and a_int(a) is not None
def a_int(a):
    """exact unsigned value as a polynomial when it is cheap to state"""
    if isc(a): return P(cv(a))
    while a.op=="zext": a=a.args[0]
    if a.op=="i2bv":
        lo,hi=interval(a.args[0])
        if lo is not None and hi is not None and lo>=0 and hi<(1<<a.w): return a.args[0]
    if a.op=="rd" or a.op=="var": return Poly.of(_atom("b2i",(a,),None,0,(1<<a.w)-1))
    return None
def _cmp(op,a,b):
    w=a.w
    assert w==b.w,(op,a.w,b.w)
    if isc(a) and isc(b):
        x,y=cv(a),cv(b)
        if op=="bveq": return bconst(x==y)
        if op=="bvult": return bconst(x<y)
        if op=="bvule": return bconst(x<=y)
        if op=="bvslt": return bconst(sgn(x,w)<sgn(y,w))
        if op=="bvsle": return bconst(sgn(x,w)<=sgn(y,w))
    if a is b: return bconst(op in("bveq","bvule","bvsle"))
    if intlike(a) or intlike(b):
        x=a_int(a); y=a_int(b)
        if x is not None and y is not None:
            H=1<<(w-1)
            if op=="bveq": return eq0(x-y)
            ok=op in("bvult","bvule")
            if not ok:
                ok=all(interval(z)[1] is not None and interval(z)[1]<H for z in(x,y))
            if ok: return ge0(y-x) if op in("bvule","bvsle") else ge0(y-x-1)
    if op=="bveq":
        if isc(a): a,b=b,a
        if a.op=="zext" and b.op=="zext":
            u,v=a.args[0],b.args[0]; m=max(u.w,v.w); return _cmp(op,zext(u,m),zext(v,m))
        if a.op=="zext" and isc(b):
            u=a.args[0]
            return FALSE if cv(b)>>u.w else _cmp(op,u,bvc(cv(b),u.w))
        if a.op=="ite" and isc(b) and isc(a.args[1]) and isc(a.args[2]):
            p=a.args[1] is b; q=a.args[2] is b
            return TRUE if p and q else a.args[0] if p else bnot(a.args[0]) if q else FALSE
        if not isc(b) and a.id>b.id: a,b=b,a
    if op in("bvslt","bvsle"):
        za=a.op=="zext" or (isc(a) and not cv(a)>>(w-1)); zb=b.op=="zext" or (isc(b) and not cv(b)>>(w-1))
        if za and zb: return _cmp("bvult" if op=="bvslt" else "bvule",a,b)
    if op in("bvult","bvule"):
        if a.op=="zext" and b.op=="zext":
            u,v=a.args[0],b.args[0]; m=max(u.w,v.w); return _cmp(op,zext(u,m),zext(v,m))
        if a.op=="zext" and isc(b):
            u=a.args[0]
            return TRUE if cv(b)>>u.w else _cmp(op,u,bvc(cv(b),u.w))
        if b.op=="zext" and isc(a):
            u=b.args[0]
            return FALSE if cv(a)>>u.w else _cmp(op,bvc(cv(a),u.w),u)
        M=(1<<w)-1
        if op=="bvule":
            if isc(a) and cv(a)==0: return TRUE
            if isc(b) and cv(b)==M: return TRUE
            if isc(a): return _cmp("bvult",bvc(cv(a)-1,w),b)
            if isc(b): return _cmp("bvult",a,bvc(cv(b)+1,w))
        else:
            if isc(b) and cv(b)==0: return FALSE
            if isc(a) and cv(a)==M: return FALSE
            if isc(b) and cv(b)==1: return _cmp("bveq",a,bvc(0,w))
    return _mk(Bool,op,0,(a,b))
def bveq(a,b): return _cmp("bveq",a,b)
def bvult(a,b): return _cmp("bvult",a,b)
def bvule(a,b): return _cmp("bvule",a,b)
def bvslt(a,b): return _cmp("bvslt",a,b)
def bvsle(a,b): return _cmp("bvsle",a,b)
def uf(name,args,w):
    args=tuple(args)
    if name in FCOMM and args[0].id>args[1].id: args=(args[1],args[0])
    return _mk(BV,"uf",w,(name,)+args)
FCOMM={"fadd32","fadd64","fmul32","fmul64"}     # exact: IEEE addition and multiplication commute (up to the payload of a NaN)

# ---- conversions
def b2i(b):
    if isc(b): return P(cv(b))
    if b.op=="zext": return b2i(b.args[0])
    if b.op=="i2bv":
        lo,hi=interval(b.args[0])
        if lo is not None and hi is not None and lo>=0 and hi<(1<<b.w): return b.args[0]
    if b.op=="add" and b.w>8:
        p=bvint(b)
        if p is not None: return p
    if b.op=="ite" and isc(b.args[1]) and isc(b.args[2]): return iteP(b.args[0],b2i(b.args[1]),b2i(b.args[2]))
    return Poly.of(_atom("b2i",(b,),None,0,(1<<b.w)-1))
def bvint(b):
    """exact unsigned value of a bit-vector term as an integer term, when no operation in it can wrap; else None"""
    op=b.op; A=b.args
    if op=="const": return P(cv(b))
    if op in("var","rd","lp"): return b2i(b)
    if op=="zext": return bvint(A[0])
    def fits(p,w):
        lo,hi=interval(p)
        return p if lo is not None and hi is not None and lo>=0 and hi<(1<<w) else None
    if op=="i2bv": return fits(A[0],b.w)
    if op=="ite":
        x,y=bvint(A[1]),bvint(A[2])
        return None if x is None or y is None else iteP(A[0],x,y)
    if op=="extract":
        x=bvint(A[0])
        if x is None: return None
        x=fdiv(x,1<<A[1]) if A[1] else x
        return fits(x,b.w)
    if op=="concat":
        x,y=bvint(A[0]),bvint(A[1])
        return None if x is None or y is None else x*(1<<A[1].w)+y
    if op in("add","sub","mul"):
        x,y=bvint(A[0]),bvint(A[1])
        if x is None or y is None: return None
        return fits(x+y if op=="add" else x-y if op=="sub" else x*y,b.w)
    if op in("udiv","lshr","shl","urem") and isc(A[1]):
        x=bvint(A[0]); k=cv(A[1])
        if x is None or op=="udiv" and not k or op=="urem" and not k or op in("lshr","shl") and k>=b.w: return None
        return fdiv(x,k) if op=="udiv" else fmod(x,k) if op=="urem" else fdiv(x,1<<k) if op=="lshr" else fits(x*(1<<k),b.w)
    return None
def i2bv(p,w):
    if p.isconst(): return bvc(p.cval(),w)
    a=atom_of(p)
    if a is not None and a.kind=="b2i":
        b=a.args[0]
        return b if b.w==w else zext(b,w) if b.w<w else trunc(b,w)
    if a is not None and a.kind=="ite": return ite(a.args[0],i2bv(a.args[1],w),i2bv(a.args[2],w))
    return _mk(BV,"i2bv",w,(p,))
def iteP(c,a,b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op=="not": c,a,b=c.args[0],b,a
    la,ha=interval(a); lb,hb=interval(b)
    lo=min(la,lb) if la is not None and lb is not None else None
    hi=max(ha,hb) if ha is not None and hb is not None else None
    return Poly.of(_atom("ite",(c,a,b),None,lo,hi))
def fdiv(p,d):
    """floor(p/d), d>0 (constant or polynomial); both mathematical integers"""
    p=P(p); d=P(d)
    if d.isconst():
        k=d.cval(); assert k>0
        if k==1: return p
        q={}; r={}
        for m,c in p.d.items():
            qq=c//k if m else c//k
            rr=c-qq*k
            if qq: q[m]=qq
            if rr: r[m]=rr
        r=Poly.mk(r); q=Poly.mk(q)
        lo,hi=interval(r)
        if lo is not None and hi is not None and lo//k==hi//k: return q+lo//k
        if r.isconst(): return q+r.cval()//k
        lo2,hi2=(lo//k if lo is not None else None),(hi//k if hi is not None else None)
        return q+Poly.of(_atom("div",(r,d),None,lo2,hi2))
    q=divexact(p,d)
    if q is not None: return q
    lo,hi=interval(p)
    return Poly.of(_atom("div",(p,d),None,0 if lo is not None and lo>=0 else None,hi))
def fmod(p,d): return P(p)-fdiv(p,d)*P(d)
def _mdiv(m,n):
    m=list(m)
    for a in n:
        if a in m: m.remove(a)
        else: return None
    return tuple(m)
def divmod_poly(p,d):
    """quotient of p by the leading monomial of d, greedy; returns (q,r)"""
    if d.isconst():
        k=d.cval()
        if k==0: return None
        q={m:c//k if c%k==0 else 0 for m,c in p.d.items()}
        q=Poly.mk(q); return q,p-q*d
    lead=max(d.d,key=lambda m:(len(m),[a.id for a in m])); lc=d.d[lead]
    q=ZERO; r=p
    for _ in range(50):
        best=None
        for m,c in r.d.items():
            x=_mdiv(m,lead)
            if x is not None and c%lc==0:
                if best is None or len(m)>best[2]: best=(x,c//lc,len(m))
        if best is None: break
        t=Poly.mk({best[0]:best[1]}); q=q+t; r=r-t*d
    return q,r
def divexact(p,d):
    x=divmod_poly(p,d)
    if x is None: return None
    return x[0] if not x[1].d else None

# ---- intervals
_iv={}
def interval(p):
    r=_iv.get(p)
    if r is not None: return r
    lo=hi=0
    for m,c in p.d.items():
        l=h=1
        if not m: l=h=c
        else:
            l,h=1,1
            for a in m:
                al,ah=a.lo,a.hi
                if l is None or al is None or l<0 or al<0:
                    if len(m)==1: l,h=al,ah
                    else:
                        if None in(l,h,al,ah): l=h=None
                        else:
                            c4=[l*al,l*ah,h*al,h*ah]; l,h=min(c4),max(c4)
                else:
                    l=l*al; h=None if (h is None or ah is None) else h*ah
            if c>=0: l=None if l is None else l*c; h=None if h is None else h*c
            else: l,h=(None if h is None else h*c),(None if l is None else l*c)
        lo=None if lo is None or l is None else lo+l
        hi=None if hi is None or h is None else hi+h
    _iv[p]=(lo,hi)
    return lo,hi

# ---- reads
def rd(region,off,size):
    """bit-vector read of the initial content of region at byte offset"""
    return _mk(BV,"rd",size*8,(region,off))
def rdp(region,off,size):
    return Poly.of(_atom("b2i",(rd(region,off,size),),None,0,(1<<(8*size))-1))

# ---- traversal
def fa(x):
    """set of integer atoms occurring (deeply)"""
    if isinstance(x,Poly):
        s=set()
        for a in x.atoms():
            s|=fa_atom(a)
        return s
    if isinstance(x,Node):
        if x._fa is None:
            s=set()
            for y in x.args:
                if isinstance(y,(Poly,Node)): s|=fa(y)
            x._fa=frozenset(s)
        return x._fa
    return frozenset()
def fa_atom(a):
    if a._fv is None:
        s={a}
        for y in a.args:
            if isinstance(y,(Poly,Node)): s|=fa(y)
        a._fv=frozenset(s)
    return a._fv

class Subst:
    """substitute integer atoms (and optionally bv/bool nodes); memoised"""
    def __init__(s,m,nodes=None): s.m=m; s.mm={}; s.keys=set(m); s.nodes=nodes or {}
    def p(s,p):
        if not s.nodes and not (fa(p)&s.keys): return p
        r=s.mm.get(p)
        if r is None:
            r=ZERO
            simple={}
            for m,c in p.d.items():
                if not s.nodes and not any(fa_atom(a)&s.keys for a in m):
                    simple[m]=c; continue
                t=P(c)
                for a in m: t=t*s.a(a)
                r=r+t
            if simple: r=r+Poly.mk(simple)
            s.mm[p]=r
        return r
    def a(s,a):
        if a in s.m: return s.m[a]
        if not s.nodes and not (fa_atom(a)&s.keys): return Poly.of(a)
        if a.kind in("var","idx"): return Poly.of(a)
        r=s.mm.get(a)
        if r is None:
            r=rebuild_atom(a,s); s.mm[a]=r
        return r
    def n(s,n):
        if n in s.nodes: return s.nodes[n]
        if not s.nodes and not (fa(n)&s.keys): return n
        r=s.mm.get(n)
        if r is None:
            args=[s(y) if isinstance(y,(Poly,Node)) else y for y in n.args]
            r=rebuild(n,args); s.mm[n]=r
        return r
    def __call__(s,x):
        if isinstance(x,Poly): return s.p(x)
        if isinstance(x,Node): return s.n(x)
        if isinstance(x,list): return [s(y) for y in x]
        if isinstance(x,tuple): return tuple(s(y) for y in x)
        return x
REBUILD_ATOM={}
def rebuild_atom(a,s):
    k=a.kind
    if k=="b2i": return b2i(s(a.args[0]))
    if k=="ite": return iteP(s(a.args[0]),s(a.args[1]),s(a.args[2]))
    if k=="div": return fdiv(s(a.args[0]),s(a.args[1]))
    if k in REBUILD_ATOM: return REBUILD_ATOM[k](a,s)
    return Poly.of(_atom(k,tuple(s(y) if isinstance(y,(Poly,Node)) else y for y in a.args),None,a.lo,a.hi))
def rebuild(n,args):
    op=n.op
    if op in("add","sub","mul","udiv","urem","sdiv","srem","and","or","xor","shl","lshr","ashr") and isinstance(n,BV): return bvop(op,*args)
    if op=="zext": return zext(args[0],n.w)
    if op=="sext": return sext(args[0],n.w)
    if op=="extract": return extract(args[0],args[1]+n.w-1,args[1])
    if op=="concat": return concat(*args)
    if op=="ite": return ite(*args)
    if op=="i2bv": return i2bv(args[0],n.w)
    if op=="ge0": return ge0(args[0])
    if op=="eq0": return eq0(args[0])
    if op=="and": return band(*args)
    if op=="or": return bor(*args)
    if op=="not": return bnot(args[0])
    if op=="uf": return uf(args[0],args[1:],n.w)
    if op in("bveq","bvult","bvule","bvslt","bvsle"): return _cmp(op,*args)
    return _mk(type(n),op,n.w,tuple(args))
def collect(x,pred,acc=None,seen=None):
    """all Nodes satisfying pred, deep"""
    if acc is None: acc=[]; seen=set()
    if isinstance(x,Poly):
        for a in x.atoms():
            if a.id in seen: continue
            seen.add(a.id)
            for y in a.args:
                if isinstance(y,(Poly,Node)): collect(y,pred,acc,seen)
    elif isinstance(x,Node):
        if x.id in seen: return acc
        seen.add(x.id)
        if pred(x): acc.append(x)
        for y in x.args:
            if isinstance(y,(Poly,Node)): collect(y,pred,acc,seen)
    return acc

def dump(x,depth=0):
    """expanded text of a term (debugging)"""
    if isinstance(x,Poly): return " + ".join((str(c)+"*" if c!=1 or not m else "")+"*".join(dump(a) for a in m) for m,c in x.d.items()) or "0"
    if isinstance(x,Atom):
        if x.kind in("var","idx","phi","havoc"): return str(x.name)
        return f"{x.kind}({', '.join(dump(a) for a in x.args)})"
    if isinstance(x,Node): return f"({x.op}{x.w or ''} {' '.join(dump(a) for a in x.args)})"
    return str(x)
# ---- sums: Sum(k<count) body, k is an index atom replaced by a canonical bound atom
def _bound(depth): return _atom("idx",(f"$b{depth}",),f"$b{depth}",0,None)
def _depth(x):
    d=0
    for a in fa(x):
        if a.kind=="idx" and a.name.startswith("$b"): d=max(d,int(a.name[2:])+1)
        if a.kind=="sum": pass
    return d
def sum_(k,count,body):
    """sum over atom k in [0,count) of Poly body"""
    count=P(count)
    if count.isconst() and count.cval()<=0: return ZERO
    if count.isconst() and count.cval()<=4:
        r=ZERO
        for i in range(count.cval()): r=r+Subst({k:P(i)})(body)
        return r
    out=ZERO
    for m,c in body.d.items():
        dep=[a for a in m if k in fa_atom(a)]; ind=[a for a in m if k not in fa_atom(a)]
        coef=P(c)
        for a in ind: coef=coef*Poly.of(a)
        if not dep: out=out+coef*count
        elif len(dep)==1 and dep[0].kind=="ite" and dep[0].args[0] is eq0(Poly.of(k)) and not dep[0].args[2].d and k not in fa(dep[0].args[1]):
            # a term of the first iteration only
            d=dep[0].args[1]; out=out+coef*(d-iteP(eq0(count),d,ZERO))
        else:
            t=Poly.mk({tuple(dep):1})
            out=out+coef*_sum1(k,count,t)
    return out
def _sum1(k,count,t):
    a=atom_of(t)
    if a is not None and a.kind=="sum":
        # nested: try to merge  sum_k<count sum_c<W f(k,c)  ->  sum_m<count*W f(0,m)
        bb,cnt,body=a.args
        ba=atom_of(bb)
        if k not in fa(cnt):
            up=Subst({k:Poly.of(k)+1})(body); sh=Subst({ba:Poly.of(ba)+cnt})(body)
            if up is sh:
                f=var("k",0,fresh=True,kind="idx"); fa_=atom_of(f)
                return sum_(fa_,count*cnt,Subst({k:ZERO,ba:f})(body))
    d=_depth(t)
    b=_bound(d); bp=Poly.of(b)
    nb=Subst({k:bp})(t)
    return Poly.of(_atom("sum",(bp,count,nb),None,0,None))
def _rebuild_sum(a,s):
    bp,cnt,body=a.args; b=atom_of(bp)
    f=var("k",0,fresh=True,kind="idx"); fa_=atom_of(f)
    body=Subst({b:f})(body)
    return sum_(fa_,s(cnt),s(body))
REBUILD_ATOM["sum"]=_rebuild_sum
