"""Symbolic execution of normalised LLVM IR with loop summaries; every loop iteration is treated at a symbolic index."""
import sys, os, itertools
from term import *
import term, prover, mem
from mem import *
from ir import Const, Reg

sys.setrecursionlimit(20000)
class Stuck(Unsupported): pass
class Undef:
    def __repr__(s): return "undef"
UNDEF=Undef()
W2=lambda w: 1<<w
ISINT=lambda ty: ty.k=="int"
def use_bv(w): return w in(8,16)

# ------------------------------------------------------------------ conversions between Poly and BV
def bvhom(p,w):
    """i2bv pushed through the ring operations when every atom is a pixel value"""
    r=None
    for m,c in p.d.items():
        t=bvc(c,w)
        for a in m:
            if a.kind=="b2i":
                b=a.args[0]; x=b if b.w==w else zext(b,w) if b.w<w else trunc(b,w)
            elif a.kind=="ite": x=ite(a.args[0],bvhom(a.args[1],w),bvhom(a.args[2],w))
            else: x=term._mk(BV,"i2bv",w,(Poly.of(a),))
            t=bvop("mul",t,x)
        r=t if r is None else bvop("add",r,t)
    return bvc(0,w) if r is None else r
def tobv(v,w):
    if isinstance(v,BV):
        return v if v.w==w else zext(v,w) if v.w<w else trunc(v,w)
    if isinstance(v,Poly):
        lo,hi=interval(v)
        if v.isconst(): return bvc(v.cval(),w)
        return bvhom(v,w)
    if isinstance(v,Bool): return ite(v,bvc(1,w),bvc(0,w))
    if v is UNDEF: return bvvar(f"undef{next(_und)}",w)
    raise Unsupported(f"tobv {v}")
_und=itertools.count(1)
def topoly(v):
    """representative modulo 2^w"""
    if isinstance(v,Poly): return v
    if isinstance(v,BV):
        if v.op in("add","mul","sub") :
            a=topoly(v.args[0]); b=topoly(v.args[1])
            return a+b if v.op=="add" else a*b if v.op=="mul" else a-b
        if v.op=="i2bv": return v.args[0]
        if v.op=="const": 
            return P(sgn(cv(v),v.w)) if v.w>=32 else P(cv(v))
        return b2i(v)
    if isinstance(v,Bool): return iteP(v,ONE,ZERO)
    if v is UNDEF: return var("undef",None,None,fresh=True)
    raise Unsupported(f"topoly {v}")
def exactpoly(v):
    """exact unsigned value of a BV"""
    return v if isinstance(v,Poly) else b2i(v) if isinstance(v,BV) else topoly(v)

# ------------------------------------------------------------------ state
class State:
    def __init__(s): s.env={}; s.mem={}; s.cells={}; s.obj={}; s.facts=[]; s.subs=[]; s.depth=0; s.trace=[]; s.dead=False; s.quiet=False; s.tag={}
    def copy(s):
        n=State(); n.env=dict(s.env); n.mem=dict(s.mem); n.cells={k:dict(v) for k,v in s.cells.items()}
        n.obj={k:o.copy() for k,o in s.obj.items()}; n.facts=list(s.facts); n.subs=list(s.subs); n.depth=s.depth; n.trace=list(s.trace); n.quiet=s.quiet; n.tag=dict(s.tag)
        return n
    def proves(s,c):
        if c is TRUE: return True
        if c is FALSE and not s.facts: return False
        if prover.proves(s.facts,c): return True
        fa=s.tag.get("forall")
        if fa:
            import quant
            ex=quant.instantiate(s,c,fa)
            if ex: return prover.proves(s.facts+ex,c)
        return False
    def simp(s,c):
        if c is TRUE or c is FALSE: return c
        if s.proves(c): return TRUE
        if s.proves(bnot(c)): return FALSE
        return c
    def assume(s,c):
        """add a fact; returns False when the state becomes infeasible"""
        if s.subs: c=s.sub(c)
        if c is TRUE: return True
        if c is FALSE: s.dead=True; s.facts.append(FALSE); return False
        if c.op=="and":
            return all([s.assume(x) for x in c.args])
        if c.op=="eq0":
            p=c.args[0]
            # substitution of a variable
            best=None
            for m,k in p.d.items():
                if len(m)==1 and k in(1,-1) and m[0].kind=="var":
                    a=m[0]; rest=Poly.mk({n:x for n,x in p.d.items() if n!=m})
                    if a in fa(rest): continue
                    e=rest*(-k)
                    if not e.isconst() and s.depth>0: continue
                    sc=(not e.isconst(), not a.name.startswith("rs"), a.id)
                    if best is None or sc<best[0]: best=(sc,a,e)
            if best:
                _,a,e=best
                s.facts.append(c)
                lo=a.lo; hi=a.hi
                s.subst(a,e)
                if lo is not None: s.facts.append(ge0(e-lo))
                if hi is not None: s.facts.append(ge0(P(hi)-e))
                s.facts=[f for f in s.facts if f is not TRUE]
                if FALSE in s.facts: s.dead=True; return False
                return True
        if c not in s.facts: s.facts.append(c)
        if s.depth==0:
            z=c.args[0] if c.op=="not" else c
            if z.op in("bvult","bvule","bveq") and {z.args[0].op,z.args[1].op}<={"var","const"}:
                # the same comparison over the integers
                x,y=b2i(z.args[0]),b2i(z.args[1]); i=lt(x,y) if z.op=="bvult" else le(x,y) if z.op=="bvule" else eq(x,y)
                if c.op=="not": i=bnot(i)
                if i not in s.facts and i is not TRUE: s.facts.append(i)
        return True
    def feasible(s):
        if s.dead or FALSE in s.facts: return False
        return not prover.is_unsat(s.facts,TRUE)
    def subst(s,a,e):
        f=Subst({a:e}); s.subs.append((a,e))
        def g(v):
            if isinstance(v,(Poly,Node)): return f(v)
            if isinstance(v,Ptr): return Ptr(v.r,f(v.o))
            if isinstance(v,list): return [g(x) for x in v]
            if isinstance(v,tuple): return tuple(g(x) for x in v)
            return v
        s.env={k:g(v) for k,v in s.env.items()}
        s.cells={k:{o:(g(v),z) for o,(v,z) in d.items()} for k,d in s.cells.items()}
        for o in s.obj.values(): o.subst(g)
        s.facts=[f(x) for x in s.facts]
        memo={}
        def gm(n):
            if n is INIT or isinstance(n,Prefix): return n
            if n in memo: return memo[n]
            r=Node_(gm(n.prev),[t.subst(f) for t in n.ts],n.kind); memo[n]=r; return r
        s.mem={k:gm(v) for k,v in s.mem.items()}
        for r in list(REGIONS): pass
        s.tag={k:g(v) for k,v in s.tag.items()}
    def sub(s,x):
        """apply the substitutions performed so far to a term in the original variables"""
        if isinstance(x,Ptr): return Ptr(x.r,s.sub(x.o))
        if not isinstance(x,(Poly,Node)): return x
        for a,e in s.subs:
            if a in fa(x): x=Subst({a:e})(x)
        return x
    def rsize(s,r): return s.sub(r.size) if r.size is not None else None
    def read(s,r,o,size): return read_ite(s,r,s.mem.get(r,INIT),o,size)
REGIONS=[]
def read_ite(S,r,node,A,size,depth=0):
    """read; undecided address questions become if-then-else values"""
    try: return mem.read(S,r,node,A,size)
    except NeedFork as nf:
        if depth>6:
            if os.environ.get("PVC_DBG"): print("RDCASES",r,A,node.kind,len(node.ts),node.prev and (node.prev.kind,len(node.prev.ts)),[(z,term.dump(z.val)[:150]) for z in node.ts[:4]],nf.cond,[str(z) for z in S.facts])
            raise Unsupported("read: too many cases")
        c=nf.cond
        a=S.copy(); a.facts.append(c); b=S.copy(); b.facts.append(bnot(c))
        return ite(c,read_ite(a,r,node,A,size,depth+1),read_ite(b,r,node,A,size,depth+1))

class Obj:
    """ghost object: abstract value of a library/container object"""
    def __init__(s,kind,**f): s.kind=kind; s.f=f
    def copy(s): return Obj(s.kind,**s.f)
    def subst(s,g): s.f={k:g(v) if isinstance(v,(Poly,Node,Ptr,list,tuple)) else v for k,v in s.f.items()}
    def __repr__(s): return f"{s.kind}{s.f}"
    def __getattr__(s,k):
        try: return s.__dict__["f"][k]
        except KeyError: raise AttributeError(k)

class Outcome:
    __slots__=("k","S","v","frm","to")
    def __init__(s,k,S,v=None,frm=None,to=None): s.k=k; s.S=S; s.v=v; s.frm=frm; s.to=to

class Obl:
    __slots__=("kind","where","goal","facts","ok","how","fn","model")
    def __init__(s,kind,where,goal,facts,ok,fn):
        s.kind=kind; s.where=where; s.goal=goal; s.facts=facts; s.ok=ok; s.fn=fn; s.how="proved" if ok else "unknown"; s.model=None
        if not ok: s.refute()
    def refute(s):
        """a failed obligation: does a concrete valuation of the path and of the negated goal exist?"""
        try: r,m=prover.query(s.facts,bnot(s.goal),want_model=True)
        except Exception: return
        if r=="sat":
            s.how="refuted"
            try: s.model=m.show() if m is not None else None
            except Exception: s.model=None

# ------------------------------------------------------------------ loops
class Loop: pass
def loops_of(F):
    if hasattr(F,"loops"): return F.loops
    bbs=F.bbs; n=len(bbs)
    succ={b:[s for s in b.succ if not (b.insts[-1].op=="invoke" and s is b.insts[-1].x["unwind"] and s is not b.insts[-1].x["normal"])] for b in bbs}
    reach=set(); st=[bbs[0]]
    order=[]
    def dfs():
        seen=set([bbs[0]]); stack=[(bbs[0],iter(succ[bbs[0]]))]
        while stack:
            b,it=stack[-1]
            for s in it:
                if s not in seen: seen.add(s); stack.append((s,iter(succ[s]))); break
            else: order.append(b); stack.pop()
        return seen
    reach=dfs(); rpo=order[::-1]; num={b:i for i,b in enumerate(rpo)}
    pred={b:[] for b in rpo}
    for b in rpo:
        for s in succ[b]: pred[s].append(b)
    idom={rpo[0]:rpo[0]}
    ch=True
    while ch:
        ch=False
        for b in rpo[1:]:
            new=None
            for p in pred[b]:
                if p in idom:
                    if new is None: new=p
                    else:
                        x,y=p,new
                        while x is not y:
                            while num[x]>num[y]: x=idom[x]
                            while num[y]>num[x]: y=idom[y]
                        new=x
            if idom.get(b) is not new: idom[b]=new; ch=True
    def dom(a,b):
        while True:
            if a is b: return True
            if b is rpo[0]: return False
            b=idom[b]
    loops={}
    for b in rpo:
        for s in succ[b]:
            if dom(s,b):
                L=loops.get(s)
                if L is None: L=Loop(); L.header=s; L.blocks={s}; L.latches=[]; loops[s]=L
                L.latches.append(b)
                st=[b]
                while st:
                    x=st.pop()
                    if x in L.blocks: continue
                    L.blocks.add(x); st+=pred[x]
    F.succ=succ
    for L in loops.values():
        L.id=f"{F.name}:{L.header.id}"
        L.exits=[(b,s) for b in sorted(L.blocks,key=lambda x:x.id) for s in succ[b] if s not in L.blocks]
        L.inner=[M for M in loops.values() if M is not L and M.header in L.blocks]
        L.defs=set(i.dst for b in L.blocks for i in b.insts if i.dst is not None)
    F.loops=loops
    return loops

class Executor:
    unwind=False      # explore exceptional paths through landing pads
    def __init__(ex,M,contracts,fname=None):
        ex.M=M; ex.contracts=contracts; ex.obls=[]; ex.fname=fname; ex.loopinfo=[]; ex.throws=0; ex.instcount=0; ex.nloop=0; ex.notes=[]; ex.used=set()
        ex.optimistic=None; ex.access=None; ex.vol=False; ex.nolazy=set(); ex.lazyread=set()
        ex.maxpaths=400; ex.unroll=1; ex.unswitch=False
    # -------------------------------------------------------------- obligations
    def oblige(ex,S,kind,goal,where=""):
        if S.quiet: return True
        ok=S.proves(goal)
        ex.obls.append(Obl(kind,where,goal,list(S.facts),ok,ex.fname))
        if not ok: 
            S.facts.append(goal)
        return ok
    # -------------------------------------------------------------- canonical integers
    def canonU(ex,S,p,w):
        if not isinstance(p,Poly): return exactpoly(p)
        M=W2(w); lo,hi=interval(p)
        if lo is not None and hi is not None and lo>=0 and hi<M: return p
        if p.isconst(): return P(p.cval()%M)
        rng=band(ge0(p),lt(p,P(M)))
        if S.proves(rng): return p
        if ex.optimistic is not None: ex.optimistic.append(rng); return p
        for k in (1,-1,2):
            q=p+k*M
            if S.proves(band(ge0(q),lt(q,P(M)))): return q
        c=ge0(p)
        if not S.proves(c) and not S.proves(bnot(c)): raise NeedFork(c)
        if S.proves(c):
            c=lt(p,P(M))
            if not S.proves(bnot(c)): raise NeedFork(c)
            c=lt(p,P(2*M))
            if not S.proves(c) and not S.proves(bnot(c)) and p.deg()<=1: raise NeedFork(c)
        else:
            c=ge0(p+M)
            if not S.proves(c) and not S.proves(bnot(c)) and p.deg()<=1: raise NeedFork(c)
        return fmod(p,M)
    def canonS(ex,S,p,w):
        M=W2(w); H=M>>1
        if not isinstance(p,Poly): p=exactpoly(p)
        lo,hi=interval(p)
        if lo is not None and hi is not None and lo>=-H and hi<H: return p
        if p.isconst():
            v=p.cval()%M; return P(v-M if v>=H else v)
        rng=band(ge0(p+H),lt(p,P(H)))
        if S.proves(rng): return p
        if ex.optimistic is not None: ex.optimistic.append(rng); return p
        for k in(-1,1):
            q=p+k*M
            if S.proves(band(ge0(q+H),lt(q,P(H)))): return q
        c=lt(p,P(H))
        if not S.proves(c) and not S.proves(bnot(c)): raise NeedFork(c)
        c=ge0(p+H)
        if not S.proves(c) and not S.proves(bnot(c)): raise NeedFork(c)
        return fmod(p+H,M)-H
    # -------------------------------------------------------------- operands
    def const(ex,S,c):
        t=c.ty
        if c.k=="int":
            if t.n==1: return bconst(c.v&1)
            if use_bv(t.n): return bvc(c.v,t.n)
            return P(sgn(c.v,t.n))
        if c.k=="null": return NULL
        if c.k=="undef":
            if t.k=="vector": return [UNDEF]*t.n
            return UNDEF
        if c.k=="zero": return ex.zero(t)
        if c.k=="agg":
            if t.k=="vector": return [ex.lane(ex.const(S,x),t.el) for x in c.v]
            return tuple(ex.const(S,x) for x in c.v)
        if c.k=="func": return FPtr(c.v)
        if c.k=="gvar": return ex.gptr(S,c.v)
        if c.k=="fp": return fpconst(c.v,t.size)
        if c.k=="expr":
            op,ops,gty=c.v
            if op=="getelementptr": return ex.gep(S,ex.const(S,ops[0]),gty,[ex.const(S,o) for o in ops[1:]])
            if op in("bitcast","inttoptr","ptrtoint"): return ex.const(S,ops[0])
        raise Unsupported(f"constant {c}")
    def zero(ex,t):
        if t.k=="int": return FALSE if t.n==1 else bvc(0,t.n) if use_bv(t.n) else ZERO
        if t.k=="vector": return [ex.lane(ex.zero(t.el),t.el) for _ in range(t.n)]
        if t.k=="ptr": return NULL
        if t.k=="struct": return tuple(ex.zero(e) for e in t.els)
        if t.k=="array": return tuple(ex.zero(t.el) for _ in range(t.n))
        if t.k in("float","double"): return bvc(0,8*t.size)
        raise Unsupported(f"zero {t}")
    def gptr(ex,S,name):
        r=ex.globals.get(name) if hasattr(ex,"globals") else None
        if not hasattr(ex,"globals"): ex.globals={}
        if r is None:
            g=ex.M.gvars.get(name)
            import llvmc as ll
            ty=ex.M.ty(ll.GlobalGetValueType(g))
            init=ex.M.gvar_init(name)
            r=Region(name,1,P(ty.size or 0),"global",ro=True)
            r.init=init; r.ty=ty
            es=ty
            while es.k=="array": es=es.el
            r.es=es.size or 1
            if init is not None: r.fill=ex.global_fill(r)
            ex.globals[name]=r
        return Ptr(r,ZERO)
    def global_fill(ex,r):
        flat=[]
        def go(c,t):
            if t.k=="array":
                for i in range(t.n): go(c.v[i] if c.k=="agg" else None,t.el) if (c is not None and c.k=="agg") else go(None,t.el)
            elif t.k=="int": flat.append(0 if c is None or c.k!="int" else c.v)
            elif t.k=="struct": raise Unsupported("global struct")
            else: flat.append(None)
        def fill(A,size):
            if not flat: go(r.init,r.ty)
            if size!=r.es: raise Unsupported("global access size")
            if A.isconst():
                k=A.cval()//size
                if A.cval()%size or not 0<=k<len(flat): return bvvar("oob",size*8) if size<=2 else var("oob",0,W2(8*size)-1)
                v=flat[k]; return bvc(v,8*size) if size<=2 else P(v)
            if len(flat)>1024: raise Unsupported("large table")
            # table lookup with symbolic index
            q=fdiv(A,size)
            v=bvc(flat[-1],8*size) if size<=2 else P(flat[-1])
            for k in range(len(flat)-2,-1,-1):
                v=ite(eq(q,k),bvc(flat[k],8*size) if size<=2 else P(flat[k]),v)
            return v
        return fill
    def val(ex,S,o):
        if isinstance(o,Reg):
            if o in S.env: return S.env[o]
            raise Unsupported(f"undefined register {o}")
        return ex.const(S,o)
    def lane(ex,v,ty):
        if ty.k=="int":
            if ty.n==1: return v
            return tobv(v,ty.n)
        return v
    def unlane(ex,v,ty):
        if ty.k=="int" and ty.n not in(1,8,16): return topoly(v) if isinstance(v,BV) else v
        return v
    # -------------------------------------------------------------- addresses
    def gep(ex,S,p,ty,idx):
        if not isinstance(p,Ptr): raise Unsupported(f"gep on {p}")
        off=p.o
        if idx:
            off=off+ex.idx64(S,idx[0])*(ty.size)
            t=ty
            for i in idx[1:]:
                if t.k=="struct":
                    k=topoly(i).cval(); off=off+t.offs[k]; t=t.els[k]
                else:
                    t=t.el; off=off+ex.idx64(S,i)*t.size
        return Ptr(p.r,off)
    def idx64(ex,S,v):
        if isinstance(v,Poly): return v          # i64 index: any wrap would be out of bounds anyway, treated as exact signed value
        return topoly(v)
    # -------------------------------------------------------------- memory access
    def check_access(ex,S,p,size,what,where):
        if not isinstance(p,Ptr): raise Unsupported(f"access through {p}")
        if p.r is None:
            ex.oblige(S,"null-deref",FALSE,where); raise PathEnd()
        if ex.access is not None: ex.access.append([what,p.r,p.o,size,S,ex.vol,None])
        rs=S.rsize(p.r)
        if rs is not None:
            ex.oblige(S,f"{what} in bounds",ge0(p.o),f"{where} {p.r}+{p.o}")
            ex.oblige(S,f"{what} in bounds",ge0(rs-p.o-size),f"{where} {p.r}+{p.o} size {size} of {rs}")
    def load(ex,S,p,ty,where):
        if isinstance(p,Ptr) and p.r is not None and p.r.kind=="cell": return ex.loadcell(S,p,ty)
        if ty.k=="struct" or ty.k=="array": raise Unsupported("aggregate load")
        ex.check_access(S,p,ty.size,"read",where)
        r=p.r
        if r.kind=="opaque": return ex.opaque(S,ty,f"ld_{r.name}")
        if ty.k=="vector":
            el=ty.el; 
            n=ty.n
            return [ex.lane(ex.load1(S,r,p.o+i*el.size,el),el) for i in range(n)]
        return ex.load1(S,r,p.o,ty)
    def load1(ex,S,r,o,ty):
        if ty.k=="ptr":
            if r.kind=="ptrs":
                return r.fillptr(S,o)
            raise Unsupported(f"pointer load from {r}")
        if ty.k in("float","double"):
            b=ex.loadbits(S,r,o,ty.size); return fpbits(b,ty.size)
        if ty.k!="int": raise Unsupported(f"load {ty}")
        size=ty.size
        b=ex.loadbits(S,r,o,size)
        if ty.n==1: return bnot(bveq(tobv(b,8),bvc(0,8)))
        if use_bv(ty.n): return tobv(b,ty.n)
        return b if isinstance(b,Poly) else exactpoly(b)
    def loadbits(ex,S,r,o,size):
        if size==r.es: return S.read(r,o,size)
        if size>r.es and size%r.es==0:
            k=size//r.es; v=None
            for i in range(k):
                x=tobv(S.read(r,o+i*r.es,r.es),8*r.es)
                v=x if v is None else concat(x,v)
            return v
        if size<r.es and o.isconst():
            b=o.cval()//r.es*r.es
            v=tobv(S.read(r,P(b),r.es),8*r.es); sh=8*(o.cval()-b)
            return extract(v,sh+8*size-1,sh)
        raise Unsupported(f"load of {size} bytes from region with elements of {r.es}")
    def loadcell(ex,S,p,ty):
        if not p.o.isconst(): raise Unsupported("symbolic offset into a local object")
        o=p.o.cval(); d=S.cells.get(p.r,{})
        if o in d and d[o][1]==ty.size:
            v=d[o][0]
            if ty.k=="int" and ty.n==1: return v if isinstance(v,Bool) else bnot(bveq(tobv(v,8),bvc(0,8)))
            if ty.k=="int" and isinstance(v,Bool): v=tobv(v,8)
            if ty.k=="int" and not isinstance(v,(Poly,BV)) and v is not UNDEF: raise Unsupported("type pun")
            if ty.k=="int": return tobv(v,ty.n) if use_bv(ty.n) else topoly(v) if v is not UNDEF else v
            return v
        if ty.k=="int" and ty.size>1:
            # assemble from narrower cells
            acc=None; q=o
            while q<o+ty.size:
                if q not in d or d[q][0] is UNDEF: acc=None; break
                x=tobv(d[q][0],8*d[q][1]); acc=x if acc is None else concat(x,acc); q+=d[q][1]
            if acc is not None and q==o+ty.size: return exactpoly(acc) if not use_bv(ty.n) else acc
        for q,(v,z) in d.items():
            if q<=o and o+ty.size<=q+z and z>ty.size and ty.k=="int" and isinstance(v,(Poly,BV)):
                x=extract(tobv(ex.canonU(S,v,8*z) if isinstance(v,Poly) else v,8*z),8*(o-q)+8*ty.size-1,8*(o-q))
                return x if use_bv(ty.n) else exactpoly(x)
        if ty.k=="vector" and ty.el.k=="int":
            return [ex.lane(ex.loadcell(S,Ptr(p.r,P(o+i*ty.el.size)),ty.el),ty.el) for i in range(ty.n)]
        return UNDEF
    def store(ex,S,p,v,ty,where):
        if isinstance(p,Ptr) and p.r is not None and p.r.kind=="cell":
            if not p.o.isconst(): raise Unsupported("symbolic offset into a local object")
            o=p.o.cval(); d=S.cells.setdefault(p.r,{})
            if ty.k=="vector":
                for i in range(ty.n): d[o+i*ty.el.size]=(ex.unlane(v[i],ty.el),ty.el.size)
                return
            for q in [q for q,(x,z) in d.items() if q<o+ty.size and o<q+z]: del d[q]
            d[o]=(v,ty.size); return
        ex.check_access(S,p,ty.size,"write",where)
        r=p.r
        if r.ro: ex.oblige(S,"write to read-only object",FALSE,f"{where} {r}")
        if r.kind=="opaque": return
        ts=ex.storeT(S,r,p.o,v,ty)
        if ex.access is not None: ex.access[-1][6]=tuple(t.val for t in ts)
        for t in ts: t.key=(len(S.trace),)
        S.mem[r]=Node_(S.mem.get(r,INIT),ts)
    def storeT(ex,S,r,o,v,ty):
        if ty.k=="vector":
            el=ty.el
            lanes=[tobv(x,8*el.size) for x in v]
            if el.size!=r.es and el.size%r.es==0:
                k=el.size//r.es
                lanes=[extract(x,8*r.es*(j+1)-1,8*r.es*j) for x in lanes for j in range(k)]
            elif r.es%el.size==0 and len(lanes)%(r.es//el.size)==0:
                k=r.es//el.size; j=[]
                for i in range(0,len(lanes),k):
                    x=lanes[i]
                    for y in lanes[i+1:i+k]: x=concat(y,x)
                    j.append(x)
                lanes=j
            elif el.size!=r.es: raise Unsupported("vector store element size")
            if r.es not in(1,2): lanes=[topoly(x) for x in lanes]
            g=uniform(lanes)
            n=len(lanes)
            if g is not None:
                l,val=g
                return [T([(l,P(n))],o+Poly.of(l)*r.es,r.es,val)]
            # runs of interleaved sequences (pixels of several channels), then single lanes
            out=[]; i=0
            while i<n:
                for m in range((n-i)//3*3,5,-3):
                    gs=[uniform(lanes[i+c:i+m:3]) for c in range(3)]
                    if all(gs):
                        out+=[T([(l,P(m//3))],o+(i+c)*r.es+Poly.of(l)*3*r.es,r.es,val) for c,(l,val) in enumerate(gs)]; i+=m; break
                else: out.append(T([],o+i*r.es,r.es,lanes[i])); i+=1
            return out
        if not isinstance(v,(Poly,BV,Bool)): 
            if v is UNDEF: v=tobv(v,8*ty.size)
            else: raise Unsupported(f"store of {v} to {r}")
        if ty.size==r.es:
            if r.es in(1,2): v=tobv(v,8*r.es)
            else: v=exactpoly(v) if isinstance(v,BV) else v if isinstance(v,Poly) else topoly(v)
            return [T([],o,r.es,v)]
        if ty.size%r.es==0:
            if isinstance(v,Poly) and not v.isconst(): v=ex.canonU(S,v,8*ty.size)
            b=tobv(v,8*ty.size); out=[]
            for j in range(ty.size//r.es): out.append(T([],o+j*r.es,r.es,extract(b,8*r.es*(j+1)-1,8*r.es*j)))
            return out
        raise Unsupported(f"store of {ty.size} bytes to region with elements of {r.es}")
    def opaque(ex,S,ty,nm):
        if ty.k=="int":
            if ty.n==1: return bvar(f"{nm}{next(_und)}")
            if use_bv(ty.n): return bvvar(f"{nm}{next(_und)}",ty.n)
            return var(nm,0,W2(ty.n)-1,fresh=True)
        return UNDEF
    # -------------------------------------------------------------- exploration
    def explore(ex,F,S,bb,prev,within=None,header=None,start=0):
        """run from bb; returns outcomes.  within: set of blocks (loop body) or None"""
        out=[]; work=[(S,bb,prev,start,True)]
        loops=loops_of(F)
        steps=0
        while work:
            S,bb,prev,i,entry=work.pop()
            if len(out)+len(work)>ex.maxpaths: raise Unsupported("too many paths")
            if entry and prev is not None:
                # arriving through an edge
                if header is not None and bb is header and i==0 and prev in within:
                    out.append(Outcome("latch",S,frm=prev,to=bb)); continue
                if within is not None and bb not in within:
                    out.append(Outcome("exit",S,frm=prev,to=bb)); continue
                if bb in loops and (bb is not header) and prev not in loops[bb].blocks:
                    nob=len(ex.obls)
                    try: los=ex.loop(F,S,loops[bb],prev)
                    except NeedFork as nf:
                        del ex.obls[nob:]       # the loop is analysed again, in each of the two cases
                        if ex.unswitch and within is not None and S.depth>0 and loopfree(nf.cond): raise
                        for c in (bnot(nf.cond),nf.cond):
                            a=S.copy()
                            if a.assume(c) and a.feasible(): work.append((a,bb,prev,0,True))
                        continue
                    for o in los:
                        if o.k=="exit": work.append((o.S,o.to,o.frm,0,True))
                        else: out.append(o)
                    continue
                # phis
                vals=[]; k=0
                for I in bb.insts:
                    if I.op!="phi": break
                    vals.append((I.dst,ex.val(S,I.ops[I.x.index(prev)]))); k+=1
                for d,v in vals: S.env[d]=v
                i=k
            elif entry and header is not None and bb is header:
                i=sum(1 for I in bb.insts if I.op=="phi")   # phis preset by the loop rule
            nxt=None
            while True:
                I=bb.insts[i]
                ex.instcount+=1
                try:
                    r=ex.step(F,S,bb,I)
                except NeedFork as nf:
                    c=nf.cond
                    if ex.unswitch and within is not None and S.depth>0 and loopfree(c): raise
                    a=S; b=S.copy()
                    ok1=a.assume(c) and a.feasible(); ok2=b.assume(bnot(c)) and b.feasible()
                    if ok1 and ok2:
                        a.trace.append(("fork",c)); b.trace.append(("fork",bnot(c)))
                    if ok2: work.append((b,bb,prev,i,False))
                    if ok1: work.append((a,bb,prev,i,False))
                    break
                except PathEnd:
                    break
                if r is None: i+=1; continue
                k=r[0]
                if k=="goto": work.append((S,r[1],bb,0,True)); break
                if k=="ret": out.append(Outcome("ret",S,r[1])); break
                if k=="throw": out.append(Outcome("throw",S,r[1] if len(r)>1 else None)); break
                if k=="states":
                    for kind,S2,x in r[1]:
                        if kind=="throw" and ex.unwind and I.op=="invoke": S2.tag["exc"]=x; work.append((S2,I.x["unwind"],bb,0,True))
                        elif kind=="throw": out.append(Outcome("throw",S2,x))
                        elif kind=="next": 
                            if I.op=="invoke": work.append((S2,I.x["normal"],bb,0,True))
                            else: work.append((S2,bb,prev,i+1,False))
                    break
                raise Stuck(str(r))
        return out
    def step(ex,F,S,bb,I):
        op=I.op
        f=getattr(ex,"op_"+op.replace(" ",""),None)
        if f is None: raise Unsupported(f"instruction {op}")
        return f(F,S,bb,I)
    # -------------------------------------------------------------- control
    def op_br(ex,F,S,bb,I):
        if len(I.x)==1 or not I.ops: return ("goto",I.x[0])
        c=ex.val(S,I.ops[0])
        if c is UNDEF: raise Unsupported("branch on undef")
        if I.x[0] is I.x[1]: return ("goto",I.x[0])
        if c is TRUE: return ("goto",I.x[0])
        if c is FALSE: return ("goto",I.x[1])
        if S.proves(c): return ("goto",I.x[0])
        if S.proves(bnot(c)): return ("goto",I.x[1])
        raise NeedFork(c if c.op!="and" else c)
    def op_switch(ex,F,S,bb,I):
        v=ex.val(S,I.ops[0]); w=I.ops[0].ty.n
        if isinstance(v,Poly): v=ex.canonU(S,v,w)
        for k,t in I.x[1]:
            c=eq(v,k) if isinstance(v,Poly) else bveq(v,bvc(k,w))
            c=S.simp(c)
            if c is TRUE: return ("goto",t)
            if c is FALSE: continue
            raise NeedFork(c)
        return ("goto",I.x[0])
    def op_ret(ex,F,S,bb,I): return ("ret",ex.val(S,I.ops[0]) if I.ops else None)
    def op_unreachable(ex,F,S,bb,I):
        ex.oblige(S,"unreachable code",FALSE,f"bb{bb.id}"); raise PathEnd()
    def op_resume(ex,F,S,bb,I): return ("throw",None)
    def op_landingpad(ex,F,S,bb,I): raise Unsupported("landingpad")
    # -------------------------------------------------------------- simple instructions
    def op_alloca(ex,F,S,bb,I):
        t=I.x
        el=t; n=1
        while el.k=="array": n*=el.n; el=el.el
        if t.k=="array" and el.k=="int" :
            r=Region(f"stack{I.dst.n}",el.size,P(n*el.size),"data",undef=True); S.mem[r]=INIT
        else: r=Region(f"local{I.dst.n}",1,P(t.size),"cell"); S.cells[r]={}
        r.ty=t; r.alloca=True
        S.env[I.dst]=Ptr(r,ZERO)
    def op_load(ex,F,S,bb,I): ex.vol=I.x; S.env[I.dst]=ex.load(S,ex.val(S,I.ops[0]),I.ty,f"load bb{bb.id}")
    def op_store(ex,F,S,bb,I):
        ex.vol=I.x
        v=ex.val(S,I.ops[0]); ex.store(S,ex.val(S,I.ops[1]),v,I.ops[0].ty,f"store bb{bb.id}"); S.trace.append(("st",))
    def op_getelementptr(ex,F,S,bb,I):
        p=ex.val(S,I.ops[0]); idx=[ex.val(S,o) for o in I.ops[1:]]
        ii=[]
        for o,v in zip(I.ops[1:],idx):
            if isinstance(v,Poly) and o.ty.k=="int" and o.ty.n<64: v=ex.canonS(S,v,o.ty.n)
            elif isinstance(v,Poly): v=ex.gepidx(S,v)
            ii.append(v)
        S.env[I.dst]=ex.gep(S,p,I.x,ii)
    def gepidx(ex,S,v):
        return v
    def op_phi(ex,F,S,bb,I): raise Stuck("phi in the middle")
    def op_select(ex,F,S,bb,I):
        c=ex.val(S,I.ops[0]); a=ex.val(S,I.ops[1]); b=ex.val(S,I.ops[2])
        if isinstance(c,list):
            S.env[I.dst]=[ite(x,y,z) for x,y,z in zip(c,a,b)]; return
        S.env[I.dst]=ex.sel(S,c,a,b,I.ty)
    def sel(ex,S,c,a,b,ty):
        if c is TRUE: return a
        if c is FALSE: return b
        if isinstance(a,Bool) and isinstance(b,Bool): return bite(c,a,b)
        if isinstance(a,BV) or isinstance(b,BV):
            w=ty.n if ty.k=="int" else 8*ty.size; return ite(c,tobv(a,w),tobv(b,w))
        c=S.simp(c)
        if c is TRUE: return a
        if c is FALSE: return b
        if isinstance(a,list):
            return [ite(c,x,y) for x,y in zip(a,b)]
        if isinstance(a,Poly) and isinstance(b,Poly):
            if a is b: return a
            if S.depth>0 or hasbvb(c):
                return iteP(c,a,b)
            raise NeedFork(c)
        if a is UNDEF: return b
        if b is UNDEF: return a
        raise NeedFork(c)
    def op_icmp(ex,F,S,bb,I):
        a=ex.val(S,I.ops[0]); b=ex.val(S,I.ops[1]); pr=I.x; ty=I.ops[0].ty
        if ty.k=="vector": S.env[I.dst]=[ex.icmp(S,pr,x,y,ty.el) for x,y in zip(a,b)]
        else: S.env[I.dst]=ex.icmp(S,pr,a,b,ty)
    def icmp(ex,S,pr,a,b,ty):
        if a is UNDEF or b is UNDEF: return bvar(f"undefcmp{next(_und)}")
        if ty.k=="ptr":
            if isinstance(a,FPtr) or isinstance(b,FPtr):
                if isinstance(a,FPtr) and isinstance(b,FPtr): e=a==b
                else: e=False
                return bconst(e if pr=="eq" else not e)
            if a.r is not b.r:
                if a.r is None or b.r is None:
                    p=a if b.r is None else b
                    if (b if b.r is None else a).o.d: raise Unsupported("cmp with offset null")
                    nz=getattr(p.r,"maybe_null",None)
                    if nz is None: return bconst(pr=="ne")
                    raise Unsupported("null-ness unknown")
                if pr in("eq","ne") : 
                    return bconst(pr=="ne")    # distinct objects (one-past-the-end pointers of other objects are not compared)
                raise Unsupported("ordering of pointers to different objects")
            x,y=a.o,b.o
            if pr in("eq","ne"): e=eq(x,y); return e if pr=="eq" else bnot(e)
            return {"ult":lt(x,y),"ule":le(x,y),"ugt":lt(y,x),"uge":le(y,x),"slt":lt(x,y),"sle":le(x,y),"sgt":lt(y,x),"sge":le(y,x)}[pr]
        w=ty.n
        if isinstance(a,Bool):
            e=biff(a,b)
            if pr=="eq": return e
            if pr=="ne": return bnot(e)
            if pr in("ult","sgt"): return band(bnot(a),b)
            if pr in("ugt","slt"): return band(a,bnot(b))
            if pr in("ule","sge"): return bor(bnot(a),b)
            return bor(a,bnot(b))
        if isinstance(a,BV) or isinstance(b,BV):
            if w in(8,16) or (isinstance(a,BV) and isinstance(b,BV)):
                a=tobv(a,w); b=tobv(b,w)
                z=ex.counters(S,a,b) if pr[0]!="s" else None
                if z is not None:
                    a,b=z; return {"eq":lambda:eq(a,b),"ne":lambda:bnot(eq(a,b)),"ult":lambda:lt(a,b),"ule":lambda:le(a,b),"ugt":lambda:lt(b,a),"uge":lambda:le(b,a)}[pr]()
                return {"eq":lambda:bveq(a,b),"ne":lambda:bnot(bveq(a,b)),"ult":lambda:bvult(a,b),"ule":lambda:bvule(a,b),"ugt":lambda:bvult(b,a),"uge":lambda:bvule(b,a),
                        "slt":lambda:bvslt(a,b),"sle":lambda:bvsle(a,b),"sgt":lambda:bvslt(b,a),"sge":lambda:bvsle(b,a)}[pr]()
            a=exactpoly(a); b=exactpoly(b)
        if pr in("eq","ne"):
            d=a-b
            if d.isconst(): e=bconst(d.cval()%W2(w)==0)
            else: e=eq(ex.canonU(S,a,w),ex.canonU(S,b,w))
            return e if pr=="eq" else bnot(e)
        if pr[0]=="u": a=ex.canonU(S,a,w); b=ex.canonU(S,b,w)
        else: a=ex.canonS(S,a,w); b=ex.canonS(S,b,w)
        return {"lt":lt(a,b),"le":le(a,b),"gt":lt(b,a),"ge":le(b,a)}[pr[1:]]
    def ctrval(ex,S,x):
        """exact integer value of a narrow loop counter"""
        while x.op=="zext": x=x.args[0]
        if x.op not in("i2bv","add","sub"): return None
        p=topoly(x)
        if x.w<16 and not any(y.kind=="idx" for y in p.atoms()): return None
        rng=band(ge0(p),lt(p,P(W2(x.w))))
        if S.proves(rng): return p
        if ex.optimistic is not None: ex.optimistic.append(rng); return p
        return None
    def counters(ex,S,a,b):
        """a narrow loop counter is compared as an integer"""
        x,y=ex.ctrval(S,a),ex.ctrval(S,b)
        if x is None and y is None: return None
        if x is None: x=bvint(a)
        if y is None: y=bvint(b)
        return (x,y) if x is not None and y is not None else None
    # casts
    def op_zext(ex,F,S,bb,I): S.env[I.dst]=ex.cast(S,"zext",ex.val(S,I.ops[0]),I.ops[0].ty,I.ty)
    def op_sext(ex,F,S,bb,I): S.env[I.dst]=ex.cast(S,"sext",ex.val(S,I.ops[0]),I.ops[0].ty,I.ty)
    def op_trunc(ex,F,S,bb,I): S.env[I.dst]=ex.cast(S,"trunc",ex.val(S,I.ops[0]),I.ops[0].ty,I.ty)
    def cast(ex,S,op,v,ft,tt):
        if ft.k=="vector":
            return [ex.lane(ex.castl(op,x,ft.el,tt.el),tt.el) for x in v]
        if v is UNDEF: return UNDEF
        fw,tw=ft.n,tt.n
        if isinstance(v,Bool):
            if op=="zext": return ite(v,bvc(1,tw),bvc(0,tw)) if use_bv(tw) else iteP(v,ONE,ZERO)
            return ite(v,bvc(-1,tw),bvc(0,tw)) if use_bv(tw) else iteP(v,P(-1),ZERO)
        if op=="trunc":
            if tw==1:
                b=tobv(v,fw); return bveq(extract(b,0,0),bvc(1,1))
            if use_bv(tw): return tobv(v,tw) if isinstance(v,BV) else tobv(v,tw)
            return v if isinstance(v,Poly) else topoly(extract(v,tw-1,0))
        if op=="zext":
            if isinstance(v,BV):
                p=ex.ctrval(S,v) if not use_bv(tw) else None
                if p is not None: return p
                return zext(v,tw) if use_bv(tw) else b2i(v)
            p=ex.canonU(S,v,fw)
            return tobv(p,tw) if use_bv(tw) else p
        if isinstance(v,BV):
            if use_bv(tw): return sext(v,tw)
            return b2i(v)-iteP(bvslt(v,bvc(0,fw)),P(W2(fw)),ZERO)
        p=ex.canonS(S,v,fw)
        return p
    def castl(ex,op,x,ft,tt):
        if isinstance(x,Bool):
            return ite(x,bvc(1 if op=="zext" else -1,tt.n),bvc(0,tt.n))
        if x is UNDEF: return UNDEF
        return zext(x,tt.n) if op=="zext" else sext(x,tt.n) if op=="sext" else trunc(x,tt.n)
    def op_bitcast(ex,F,S,bb,I):
        v=ex.val(S,I.ops[0]); ft=I.ops[0].ty; tt=I.ty
        S.env[I.dst]=ex.bitcast(v,ft,tt)
    def bitcast(ex,v,ft,tt):
        if ft.k=="ptr" and tt.k=="ptr": return v
        if ft.k in("float","double") or tt.k in("float","double"):
            if ft.k=="int": return fpbits(v,tt.size)
            if tt.k=="int": return fptobits(v,ft.size)
            raise Unsupported("fp vector bitcast")
        if ft.k=="vector" and ft.el.k in("float","double"): raise Unsupported("fp vector")
        lanes=v if ft.k=="vector" else [v]; lw=ft.el.n if ft.k=="vector" else ft.n
        if lw==1:
            lanes=[ite(x,bvc(1,1),bvc(0,1)) if isinstance(x,Bool) else x for x in lanes]
        tw=tt.el.n if tt.k=="vector" else tt.n; n=tt.n if tt.k=="vector" else 1
        lanes=[tobv(x,lw) if x is not UNDEF else x for x in lanes]
        if lw==tw: out=lanes
        elif lw<tw:
            k=tw//lw; out=[]
            for j in range(n):
                grp=lanes[k*j:k*j+k]
                if all(x is UNDEF for x in grp): out.append(UNDEF); continue
                x=None
                for g in grp: g=tobv(g,lw); x=g if x is None else concat(g,x)
                out.append(x)
        else:
            k=lw//tw; out=[]
            for x in lanes:
                for j in range(k): out.append(UNDEF if x is UNDEF else extract(x,tw*(j+1)-1,tw*j))
        if tt.k=="vector":
            if tw==1: return [bveq(x,bvc(1,1)) for x in out]
            return out
        if tw==1: return bveq(out[0],bvc(1,1))
        return ex.unlane(out[0],tt)
    def op_ptrtoint(ex,F,S,bb,I):
        v=ex.val(S,I.ops[0])
        S.env[I.dst]=("addr",v)
    def op_inttoptr(ex,F,S,bb,I):
        v=ex.val(S,I.ops[0])
        if isinstance(v,tuple) and v[0]=="addr": S.env[I.dst]=v[1]; return
        raise Unsupported("inttoptr")
    def op_freeze(ex,F,S,bb,I): S.env[I.dst]=ex.val(S,I.ops[0])
    # arithmetic
    def arith(ex,F,S,bb,I):
        a=ex.val(S,I.ops[0]); b=ex.val(S,I.ops[1]); ty=I.ty; op=I.op
        if ty.k=="vector":
            S.env[I.dst]=[ex.larith(S,op,x,y,ty.el) for x,y in zip(a,b)]; return
        S.env[I.dst]=ex.sarith(S,op,a,b,ty.n,I)
    for _o in("add","sub","mul","and","or","xor","shl","lshr","ashr","udiv","urem","sdiv","srem"): locals()["op_"+_o]=arith
    def larith(ex,S,op,x,y,el):
        if x is UNDEF and y is UNDEF: return UNDEF
        if el.k=="int" and el.n==1:
            return {"and":band,"or":bor,"xor":lambda p,q:bnot(biff(p,q))}[op](x,y)
        x=tobv(x,el.n); y=tobv(y,el.n)
        return bvop(op,x,y)
    def sarith(ex,S,op,a,b,w,I):
        if isinstance(a,tuple) or isinstance(b,tuple):
            if op=="sub" and isinstance(a,tuple) and isinstance(b,tuple) and a[1].r is b[1].r: return a[1].o-b[1].o
            raise Unsupported("address arithmetic")
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a,Bool) and isinstance(b,Bool):
            if op=="and": return band(a,b)
            if op=="or": return bor(a,b)
            if op=="xor": return bnot(biff(a,b))
            if op=="add" or op=="sub": return bnot(biff(a,b))
            if op=="mul": return band(a,b)
            raise Unsupported("bool arith")
        if isinstance(a,(BV,)) or isinstance(b,BV):
            a=tobv(a,w); b=tobv(b,w)
            if op in("udiv","urem","sdiv","srem"): ex.oblige(S,"division by zero",bnot(bveq(b,bvc(0,w))))
            return bvop(op,a,b)
        if op in("add","sub","mul"):
            r=a+b if op=="add" else a-b if op=="sub" else a*b
            if I is not None and I.nsw and w<64 and ex.optimistic is None:
                pass
            if r.isconst(): r=P(sgn(r.cval()%W2(w),w))
            return r
        if op=="shl":
            if b.isconst(): return a*(1<<(b.cval()%W2(w)))
            raise Unsupported("symbolic shift")
        if op=="lshr":
            if b.isconst(): return fdiv(ex.canonU(S,a,w),1<<(b.cval()%W2(w)))
            raise Unsupported("symbolic shift")
        if op=="ashr":
            if b.isconst(): return fdiv(ex.canonS(S,a,w),1<<(b.cval()%W2(w)))
            raise Unsupported("symbolic shift")
        if op=="and":
            if a.isconst(): a,b=b,a
            if b.isconst():
                m=b.cval()%W2(w)
                if m&(m+1)==0:   # low mask
                    lo,hi=interval(a)
                    if lo is not None and hi is not None and lo>=0 and hi<=m: return a
                    return a if S.proves(band(ge0(a),ge0(m-a))) else fmod(a,m+1)
                inv=W2(w)-1-m
                if inv&(inv+1)==0:
                    u=ex.canonU(S,a,w); return fdiv(u,inv+1)*(inv+1)
            return topoly_exact(bvop("and",tobv(a,w),tobv(b,w)))
        if op=="or":
            # disjoint bits: high part multiple of 2^k, low part below 2^k
            for x,y in((a,b),(b,a)):
                lo,hi=interval(y)
                if lo is not None and hi is not None and lo>=0:
                    k=hi.bit_length()
                    if all(c%(1<<k)==0 for c in x.d.values()): return x+y
            return topoly_exact(bvop("or",tobv(a,w),tobv(b,w)))
        if op=="xor":
            if b.isconst() and b.cval()%W2(w)==W2(w)-1: return -a-1
            return topoly_exact(bvop("xor",tobv(a,w),tobv(b,w)))
        if op in("udiv","urem"):
            x=ex.canonU(S,a,w); y=ex.canonU(S,b,w)
            ex.oblige(S,"division by zero",ge0(y-1),f"{y}")
            q=ex.divS(S,x,y)
            return q if op=="udiv" else x-q*y
        if op in("sdiv","srem"):
            x=ex.canonS(S,a,w); y=ex.canonS(S,b,w)
            if not S.proves(ge0(y-1)): 
                ex.oblige(S,"division by zero",bnot(eq0(y))); 
                if not S.proves(ge0(y-1)): raise Unsupported("signed division by negative")
            if S.proves(ge0(x)): q=ex.divS(S,x,y)
            elif S.proves(ge0(-x)): q=-ex.divS(S,-x,y)
            else: raise NeedFork(ge0(x))
            return q if op=="sdiv" else x-q*y
        raise Unsupported(op)
    def divS(ex,S,x,y):
        """floor(x/y); x>=0,y>=1; use exact quotient shapes when provable"""
        q=divexact(x,y)
        if q is not None: return q
        dm=divmod_poly(x,y)
        if dm is not None and dm[0].d:
            q,r=dm
            if S.proves(band(ge0(r),lt(r,y))): return q
        if S.proves(lt(x,y)): return ZERO
        return fdiv(x,y)
    # vectors
    def op_shufflevector(ex,F,S,bb,I):
        a=ex.val(S,I.ops[0]); b=ex.val(S,I.ops[1])
        if b is UNDEF: b=[UNDEF]*I.ops[1].ty.n
        if a is UNDEF: a=[UNDEF]*I.ops[0].ty.n
        ab=list(a)+list(b)
        S.env[I.dst]=[UNDEF if k<0 or k>=len(ab) else ab[k] for k in I.x]
    def op_insertelement(ex,F,S,bb,I):
        v=ex.val(S,I.ops[0]); x=ex.val(S,I.ops[1]); k=topoly(ex.val(S,I.ops[2]))
        if not k.isconst(): raise Unsupported("symbolic lane")
        v=list(v) if v is not UNDEF else [UNDEF]*I.ty.n
        v[k.cval()]=ex.lane(x,I.ty.el); S.env[I.dst]=v
    def op_extractelement(ex,F,S,bb,I):
        v=ex.val(S,I.ops[0]); k=topoly(ex.val(S,I.ops[1]))
        if not k.isconst(): raise Unsupported("symbolic lane")
        S.env[I.dst]=ex.unlane(v[k.cval()],I.ty)
    def op_extractvalue(ex,F,S,bb,I):
        v=ex.val(S,I.ops[0])
        for k in I.x: v=v[k]
        S.env[I.dst]=v
    def op_insertvalue(ex,F,S,bb,I):
        def ins(a,ty,path,x):
            if not path: return x
            a=list(a) if isinstance(a,tuple) else [UNDEF]*(len(ty.els) if ty.k=="struct" else ty.n)
            k=path[0]; sub=ty.els[k] if ty.k=="struct" else ty.el
            a[k]=ins(a[k],sub,path[1:],x); return tuple(a)
        S.env[I.dst]=ins(ex.val(S,I.ops[0]),I.ty,I.x,ex.val(S,I.ops[1]))
    # floating point: z3-like opaque nodes
    def fparith(ex,F,S,bb,I):
        S.env[I.dst]=fpop(I.op,[ex.val(S,o) for o in I.ops],I.ty)
    for _o in("fadd","fsub","fmul","fdiv","frem","fneg"): locals()["op_"+_o]=fparith
    def fpcast(ex,F,S,bb,I):
        v=ex.val(S,I.ops[0])
        S.env[I.dst]=fpconv(ex,S,I.op,v,I.ops[0].ty,I.ty)
    for _o in("uitofp","sitofp","fptoui","fptosi","fpext","fptrunc"): locals()["op_"+_o]=fpcast
    def op_fcmp(ex,F,S,bb,I):
        a=ex.val(S,I.ops[0]); b=ex.val(S,I.ops[1])
        S.env[I.dst]=fpcmp(I.x,a,b,8*I.ops[0].ty.size)
    # -------------------------------------------------------------- calls
    def op_call(ex,F,S,bb,I): return ex.docall(F,S,bb,I)
    def op_invoke(ex,F,S,bb,I):
        r=ex.docall(F,S,bb,I)
        if r is None: return ("goto",I.x["normal"])
        return r
    def docall(ex,F,S,bb,I):
        cal=I.x["callee"]
        if isinstance(cal,Const) and cal.k=="func": name=cal.v
        else:
            v=ex.val(S,cal) if not (isinstance(cal,Const) and cal.k=="other") else None
            if isinstance(v,FPtr): name=v.name
            else: return ex.contracts.indirect(ex,S,I,v,[ex.val(S,o) if o is not None else None for o in I.ops])
        if name.startswith(("llvm.lifetime","llvm.dbg","llvm.experimental.noalias","llvm.assume","llvm.invariant")): return None
        args=[ex.val(S,o) if o is not None else None for o in I.ops]
        dn=ex.M.dm.get(name,name)
        h=ex.contracts.lookup(name,dn)
        if h is None: raise Unsupported(f"call to {dn}")
        ex.used.add(dn)
        r=h(ex,S,I,args,dn)
        if isinstance(r,tuple) and len(r)==2 and r[0] in("states","throw"): return r
        if isinstance(r,tuple) and len(r)==1 and r[0]=="throw": return r
        if I.dst is not None: S.env[I.dst]=r
        return None
    # -------------------------------------------------------------- loops
    def loop(ex,F,S,L,prev):
        import loops
        return loops.summarise(ex,F,S,L,prev)
    def explore2(ex,F,S,args):
        """run another function of the module in state S"""
        for r,v in zip(F.params,args): S.env[r]=v
        return ex.explore(F,S,F.bbs[0],None)
    def run(ex,F,S,args):
        for r,v in zip(F.params,args): S.env[r]=v
        return ex.explore(F,S,F.bbs[0],None)

class PathEnd(Exception): pass
def loopfree(c):
    """the condition does not depend on any loop index or loop-carried value"""
    return not any(a.kind in("idx","phi") for a in fa(c)) and not collect(c,lambda n:n.op=="lp")
def topoly_exact(b): return b2i(b)
_hb={}
def hasbvb(c):
    r=_hb.get(c)
    if r is None: r=_hb[c]=bool(collect(c,lambda x:isinstance(x,BV)))
    return r

# ------------------------------------------------------------------ lanes -> one symbolic lane
def uniform(lanes):
    n=len(lanes)
    if n<2: return None
    if all(x is lanes[0] for x in lanes):
        l=atom_of(var("l",0,n-1,fresh=True,kind="idx")); return l,lanes[0]
    l=var("l",0,n-1,fresh=True,kind="idx"); la=atom_of(l)
    memo={}
    def gp(p,q):
        if p is q: return p
        d=q-p
        if d.isconst(): return p+l*d.cval()
        # same shape with differing atoms
        if len(p.d)!=len(q.d): raise KeyError
        common={m:c for m,c in p.d.items() if q.d.get(m)==c}
        rp=[(m,c) for m,c in p.d.items() if m not in common]; rq=[(m,c) for m,c in q.d.items() if m not in common]
        rp.sort(key=lambda x:(len(x[0]),[a.id for a in x[0]])); rq.sort(key=lambda x:(len(x[0]),[a.id for a in x[0]]))
        if len(rp)!=len(rq): raise KeyError
        out=Poly.mk(common)
        for (m,c),(m2,c2) in zip(rp,rq):
            if len(m)!=len(m2): raise KeyError
            if not m: 
                out=out+P(c)+l*(c2-c); continue
            if c!=c2: raise KeyError
            t=P(c)
            for a,b in zip(m,m2): t=t*ga(a,b)
            out=out+t
        return out
    def ga(a,b):
        if a is b: return Poly.of(a)
        if a.kind!=b.kind or len(a.args)!=len(b.args): raise KeyError
        if a.kind=="b2i": return b2i(gn(a.args[0],b.args[0]))
        if a.kind=="ite": return iteP(gn(a.args[0],b.args[0]),gp(a.args[1],b.args[1]),gp(a.args[2],b.args[2]))
        if a.kind=="div": return fdiv(gp(a.args[0],b.args[0]),gp(a.args[1],b.args[1]))
        if a.kind=="sum" and a.args[0] is b.args[0]:
            i=var("k",0,fresh=True,kind="idx")
            return sum_(atom_of(i),gp(a.args[1],b.args[1]),Subst({atom_of(a.args[0]):i})(gp(a.args[2],b.args[2])))
        raise KeyError
    def gn(a,b):
        if a is b: return a
        k=(a.id,b.id)
        if k in memo: return memo[k]
        if a.op!=b.op or a.w!=b.w or len(a.args)!=len(b.args): raise KeyError
        if a.op=="const": raise KeyError
        args=[]
        for x,y in zip(a.args,b.args):
            if isinstance(x,Poly): args.append(gp(x,y))
            elif isinstance(x,Node): args.append(gn(x,y))
            else:
                if x is not y and x!=y: raise KeyError
                args.append(x)
        r=rebuild(a,args); memo[k]=r; return r
    try:
        g=gp(lanes[0],lanes[1]) if isinstance(lanes[0],Poly) else gn(lanes[0],lanes[1])
        if all(Subst({la:P(k)})(g) is lanes[k] for k in range(n)): return la,g
    except KeyError: pass
    # groups of d equal lanes: lane k holds g((k+c)/d)
    for d in (3,2,4):
        if n<=d: continue
        for c in range(d):
            memo.clear(); j=(d-c)%d         # first lane of a group
            if j+d>=n: continue
            try: g=gp(lanes[j],lanes[j+d]) if isinstance(lanes[0],Poly) else gn(lanes[j],lanes[j+d])
            except KeyError: continue
            g=Subst({la:fdiv(l+c,d)-(j+c)//d})(g)
            if all(Subst({la:P(k)})(g) is lanes[k] for k in range(n)): return la,g
    return None

# ------------------------------------------------------------------ floating point: IEEE operations as deterministic uninterpreted functions on bit patterns
import struct
def fpconst(v,size): return bvc(int.from_bytes(struct.pack("<d" if size==8 else "<f",v),"little"),8*size)
def fpval(b):
    """Python value of a constant"""
    if not isc(b): return None
    return struct.unpack("<d" if b.w==64 else "<f",cv(b).to_bytes(b.w//8,"little"))[0]
def fpbits(b,size): return tobv(b,8*size)
def fptobits(v,size): return v
def fpop(op,args,ty):
    if ty.k not in("float","double"): raise Unsupported("floating-point vector")
    w=8*ty.size; a=[tobv(x,w) for x in args]
    return uf(f"{op}{w}",a,w)
def fpfun(name,args,w): return uf(f"fn_{name}{w}",[tobv(x,w) for x in args],w)
def fpconv(ex,S,op,v,ft,tt):
    if op in("uitofp","sitofp"):
        w=8*tt.size
        if isinstance(v,Bool): v=iteP(v,ONE if op[0]=="u" else P(-1),ZERO)
        p=ex.canonU(S,v,ft.n) if op[0]=="u" else ex.canonS(S,v,ft.n)
        if p.isconst(): return fpconst(float(p.cval()),tt.size) if abs(p.cval())<=1<<24 else uf(f"int2fp{w}",[p],w)
        return uf(f"int2fp{w}",[p],w)
    if op in("fptoui","fptosi"):
        # the result is some value of the target type; a conversion out of range is undefined and left to the bounded runs
        ex.notes.append("floating-point to integer conversions are in range (executed under UBSan in the bounded runs, not proved)")
        b=uf(f"{op}{tt.n}_{8*ft.size}",[tobv(v,8*ft.size)],tt.n)
        return b if use_bv(tt.n) else b2i(b)
    w,t=8*ft.size,8*tt.size
    if isc(tobv(v,w)): return fpconst(fpval(tobv(v,w)),tt.size) if op=="fpext" else uf(f"{op}{w}",[tobv(v,w)],t)
    return uf(f"{op}{w}",[tobv(v,w)],t)
def fpcmp(p,a,b,w):
    a=tobv(a,w); b=tobv(b,w)
    f=lambda n,x,y: bveq(uf(f"{n}{w}",[x,y],1),bvc(1,1))
    sym=lambda n: f(n,a,b) if a.id<=b.id else f(n,b,a)
    lt_=lambda x,y:f("flt",x,y); le_=lambda x,y:f("fle",x,y)
    x,y=fpval(a),fpval(b)
    if x is not None and y is not None:
        un=x!=x or y!=y; r=(p&1 and x==y) or (p&2 and x>y) or (p&4 and x<y) or (p&8 and un)
        return TRUE if r else FALSE
    if p==0: return FALSE
    if p==15: return TRUE
    if p==1: return sym("feq")
    if p==2: return lt_(b,a)
    if p==3: return le_(b,a)
    if p==4: return lt_(a,b)
    if p==5: return le_(a,b)
    if p==6: return bor(lt_(a,b),lt_(b,a))
    if p==7: return bnot(sym("funo"))
    return bnot(fpcmp(15-p,a,b,w))
