"""Discharge obligations with z3 (and cvc5 as second opinion)."""
import z3, time, os
from term import *
import term

class Stats:
    def __init__(s): s.q=0; s.t=0.0; s.by={}; s.slow=[]; s.unknown=0; s.pool=0; s.kinds={}
    def add(s,k): s.by[k]=s.by.get(k,0)+1
STATS=Stats()
ZA={}; ZN={}
def z3mono(m,real):
    if len(m)==1: return z3atom(m[0],real)
    key=(tuple(a.id for a in m),real)
    v=ZA.get(key)
    if v is None:
        nm="m_"+"_".join(str(a.id) for a in m)
        v=z3.Real(nm) if real else z3.Int(nm); ZA[key]=v
    return v
def z3atom(a,real):
    key=(a.id,real)
    v=ZA.get(key)
    if v is None:
        nm=f"a{a.id}"
        v=z3.Real(nm) if real else z3.Int(nm); ZA[key]=v
    return v
NL=False   # when set, monomials are true products
# integer terms are built with z3's C interface: the Python wrapper dominates the running time otherwise
_C=z3.main_ctx().ref(); _Z=z3.z3core
_NUM={}; _CMP={}
def _num(c,real):
    v=_NUM.get((c,real))
    if v is None: v=_NUM[(c,real)]=z3.RealVal(c) if real else z3.IntVal(c)
    return v.ast
def z3poly(p,real):
    key=(p.id,real,NL)
    v=ZN.get(key)
    if v is None:
        ts=[]; tmp=[]
        for m,c in p.d.items():
            if not m: ts.append(_num(c,real)); continue
            if NL and len(m)>1:
                x=z3atom(m[0],real)
                for a in m[1:]: x=x*z3atom(a,real)
                tmp.append(x); x=x.ast
            else: x=z3mono(m,real).ast
            if c!=1:
                arr=(z3.Ast*2)(_num(c,real),x); x=_Z.Z3_mk_mul(_C,2,arr); _Z.Z3_inc_ref(_C,x); y=z3.ArithRef(x); _Z.Z3_dec_ref(_C,x); tmp.append(y)
            ts.append(x)
        if not ts: v=z3.RealVal(0) if real else z3.IntVal(0)
        elif len(ts)==1: v=z3.ArithRef(ts[0])
        else: v=z3.ArithRef(_Z.Z3_mk_add(_C,len(ts),(z3.Ast*len(ts))(*ts)))
        ZN[key]=v
    return v
def z3cmp(p,real,ge):
    """p>=0 / p==0 as a z3 formula"""
    key=(p.id,real,NL,ge)
    v=_CMP.get(key)
    if v is None:
        x=z3poly(p,real).ast; z=_num(0,real)
        v=_CMP[key]=z3.BoolRef(_Z.Z3_mk_ge(_C,x,z) if ge else _Z.Z3_mk_eq(_C,x,z))
    return v
def assert_all(s,fs):
    for f in fs: _Z.Z3_solver_assert(_C,s.solver,f.ast)
def z3n(n,real=False):
    key=(n.id,real,NL)
    v=ZN.get(key)
    if v is not None: return v
    op=n.op; A=n.args
    R=lambda x: z3n(x,real)
    if op=="true": v=z3.BoolVal(True)
    elif op=="false": v=z3.BoolVal(False)
    elif op=="bvar": v=z3.Bool("B"+str(A[0]))
    elif op=="and" and isinstance(n,Bool): v=z3.And(*[R(x) for x in A])
    elif op=="or" and isinstance(n,Bool): v=z3.Or(*[R(x) for x in A])
    elif op=="not": v=z3.Not(R(A[0]))
    elif op=="ge0": v=z3cmp(A[0],real,True)
    elif op=="eq0": v=z3cmp(A[0],real,False)
    elif op=="bveq": v=R(A[0])==R(A[1])
    elif op=="bvult": v=z3.ULT(R(A[0]),R(A[1]))
    elif op=="bvule": v=z3.ULE(R(A[0]),R(A[1]))
    elif op=="bvslt": v=R(A[0])<R(A[1])
    elif op=="bvsle": v=R(A[0])<=R(A[1])
    elif op=="const": v=z3.BitVecVal(A[0],n.w)
    elif op in("var","rd","i2bv","lp"): v=z3.BitVec(f"v{n.id}",n.w)
    elif op=="uf":
        f=z3.Function(str(A[0]),*[z3.BitVecSort(x.w) if isinstance(x,BV) else z3.IntSort() for x in A[1:]],z3.BitVecSort(n.w))
        v=f(*[R(x) if isinstance(x,BV) else z3poly(x,False) for x in A[1:]])
    elif op=="zext": v=z3.ZeroExt(n.w-A[0].w,R(A[0]))
    elif op=="sext": v=z3.SignExt(n.w-A[0].w,R(A[0]))
    elif op=="extract": v=z3.Extract(A[1]+n.w-1,A[1],R(A[0]))
    elif op=="concat": v=z3.Concat(R(A[0]),R(A[1]))
    elif op=="ite": v=z3.If(R(A[0]),R(A[1]),R(A[2]))
    else:
        x,y=R(A[0]),R(A[1])
        if op=="add": v=x+y
        elif op=="sub": v=x-y
        elif op=="mul": v=x*y
        elif op=="udiv": v=z3.UDiv(x,y)
        elif op=="urem": v=z3.URem(x,y)
        elif op=="sdiv": v=x/y
        elif op=="srem": v=z3.SRem(x,y)
        elif op=="and": v=x&y
        elif op=="or": v=x|y
        elif op=="xor": v=x^y
        elif op=="shl": v=x<<y
        elif op=="lshr": v=z3.LShR(x,y)
        elif op=="ashr": v=x>>y
        else: raise NotImplementedError(op)
    ZN[key]=v
    return v
def has_bv(n):
    return bool(collect(n,lambda x:isinstance(x,BV)))
_hb={}
def hasbv(n):
    r=_hb.get(n)
    if r is None: r=_hb[n]=has_bv(n)
    return r

def top_atoms(n,acc):
    """integer atoms appearing in arithmetic positions of a Bool (not inside rd offsets)"""
    if isinstance(n,Poly):
        for a in n.atoms():
            if a not in acc:
                acc.add(a)
                if a.kind=="div": top_atoms(a.args[0],acc); top_atoms(a.args[1],acc)
                elif a.kind=="ite": top_atoms(a.args[0],acc); top_atoms(a.args[1],acc); top_atoms(a.args[2],acc)
        return
    if n.op in("ge0","eq0"): top_atoms(n.args[0],acc)
    elif isinstance(n,Bool) and n.op in("and","or","not"):
        for x in n.args: top_atoms(x,acc)
    elif isinstance(n,Bool) and n.op=="bvar": pass
def lits(n,acc):
    """polys of int literals"""
    if n.op in("ge0","eq0"): acc.append(n.args[0])
    elif isinstance(n,Bool) and n.op in("and","or","not"):
        for x in n.args: lits(x,acc)

def upper(p):
    """upper bound of a term, free of bound variables; None when none is known"""
    t=ZERO
    for m,c in p.d.items():
        if not m: t=t+c; continue
        if c<0:
            if all(a.lo is not None and a.lo>=0 for a in m): continue
            return None
        if len(m)!=1: return None
        a=m[0]
        if a.kind=="ite":
            x,y=upper(a.args[1]),upper(a.args[2])
            if x is None or y is None or not(x.isconst() and y.isconst()): return None
            u=P(max(x.cval(),y.cval()))
        elif a.kind=="sum":
            u=upper(a.args[2])
            if u is None: return None
            u=u*a.args[1]
        elif a.hi is not None: u=P(a.hi)
        else: return None
        t=t+u*c
    return None if any(a.kind=="idx" and a.name.startswith("$b") for a in fa(t)) else t
def atom_facts(atoms):
    out=[]
    done=set()
    work=list(atoms)
    for a in work:
        if a in done: continue
        done.add(a)
        p=Poly.of(a)
        if a.lo is not None: out.append(("ge",p-a.lo))
        if a.hi is not None: out.append(("ge",P(a.hi)-p))
        if a.kind=="div":
            n,d=a.args
            if d.isconst() or True:
                # d>0 assumed by construction (fdiv callers check)
                out.append(("ge",n-p*d)); out.append(("ge",p*d+d-1-n))
        if a.kind=="sum":
            u=upper(a.args[2])
            if u is not None: out.append(("ge",a.args[1]*u-p))
        if a.kind=="ite":
            c,x,y=a.args
            out.append(("b",bor(bnot(c),_mk_eq(p-x)))); out.append(("b",bor(c,_mk_eq(p-y))))
    return out
def _mk_eq(p):
    return eq0(p)

# ---------------------------------------------------------------- concrete valuations: cheap refutation of proof attempts
class NoVal(Exception): pass
class Valuation:
    __slots__=("a","b","mp","mn","mem")
    def __init__(s,a,b): s.a=a; s.b=b; s.mp={}; s.mn={}; s.mem={}
    def show(s):
        return {str(x):v for x,v in s.a.items() if x.kind not in("div","ite","b2i","idx")}
    def atom(s,a):
        v=s.a.get(a)
        if v is None:
            k=a.kind
            if k=="div":
                n=s.poly(a.args[0]); d=s.poly(a.args[1])
                if d==0: raise NoVal()
                v=n//d
            elif k=="ite": v=s.poly(a.args[1]) if s.node(a.args[0]) else s.poly(a.args[2])
            elif k=="b2i": v=s.node(a.args[0])
            elif k=="sum": raise NoVal()
            else: v=a.lo if a.lo is not None else 0
            s.a[a]=v
        return v
    def poly(s,p):
        v=s.mp.get(p)
        if v is None:
            v=0
            for m,c in p.d.items():
                for x in m: c*=s.atom(x)
                v+=c
            s.mp[p]=v
        return v
    def node(s,n):
        v=s.mn.get(n)
        if v is None: v=s.mn[n]=s.node1(n)
        return v
    def node1(s,n):
        op=n.op; A=n.args; N=s.node
        if isinstance(n,Bool):
            if op=="ge0": return s.poly(A[0])>=0
            if op=="eq0": return s.poly(A[0])==0
            if op=="and": return all(N(x) for x in A)
            if op=="or": return any(N(x) for x in A)
            if op=="not": return not N(A[0])
            if op=="true": return True
            if op=="false": return False
            if op=="bvar": return s.b.get(n,False)
            x,y=N(A[0]),N(A[1])
            if op=="bveq": return x==y
            if op=="bvult": return x<y
            if op=="bvule": return x<=y
            w=A[0].w; x=sgn(x,w); y=sgn(y,w)
            return x<y if op=="bvslt" else x<=y
        w=n.w; M=(1<<w)-1
        if op=="const": return A[0]
        if op=="rd":
            # reads of the same address give the same value
            k=(A[0],s.poly(A[1]),w); v=s.b.get(n); q=s.mem.get(k)
            if q is None: q=s.mem[k]=v if v is not None else (hash(k)*2654435761>>7)&M
            elif v is not None and v!=q: raise NoVal()
            return q
        if op in("var","lp"):
            v=s.b.get(n)
            return v if v is not None else (n.id*2654435761>>7)&M
        if op=="i2bv": return s.poly(A[0])&M
        if op=="zext": return N(A[0])
        if op=="sext": return sgn(N(A[0]),A[0].w)&M
        if op=="extract": return (N(A[0])>>A[1])&M
        if op=="concat": return (N(A[0])<<A[1].w)|N(A[1])
        if op=="ite": return N(A[1]) if N(A[0]) else N(A[2])
        if op=="uf": raise NoVal()
        r=bvop(op,bvc(N(A[0]),w),bvc(N(A[1]),w))
        if not isc(r): raise NoVal()
        return cv(r)
    def holds(s,bs):
        try: return all(s.node(b) for b in bs)
        except NoVal: return False
POOL=[]
def pool_sat(bs):
    for k,m in enumerate(POOL):
        if m.holds(bs):
            if k: POOL.insert(0,POOL.pop(k))
            return m
    return None
def from_model(model,bs,atoms,real):
    a={}
    for x in atoms:
        if x.kind in("div","ite","sum"): continue
        e=ZA.get((x.id,real))
        if e is None: continue
        v=model.eval(e,model_completion=False)
        if z3.is_int_value(v): a[x]=v.as_long()
        elif z3.is_rational_value(v): a[x]=-((-v.numerator_as_long())//v.denominator_as_long())
    b={}
    for f in bs:
        for n in collect(f,lambda y: y.op in("bvar","var","rd","lp")):
            if n in b: continue
            e=ZN.get((n.id,real,NL))
            if e is None: continue
            v=model.eval(e,model_completion=False)
            if n.op=="bvar": 
                if z3.is_true(v): b[n]=True
            elif z3.is_bv_value(v): b[n]=v.as_long()
    m=Valuation(a,b)
    if m.holds(bs):
        POOL.insert(0,m); del POOL[60:]
        return m
    return None
class Cache: d={}
TIMEOUT=int(os.environ.get("PVC_TIMEOUT_MS","4000"))
DEADLINE=[None]
class Result:
    __slots__=("ok","how","model","why")
    def __init__(s,ok,how,model=None,why=None): s.ok=ok; s.how=how; s.model=model; s.why=why
    def __bool__(s): return s.ok

def relevant(facts,goal):
    """facts connected to the goal through atoms"""
    return facts
def split_on(neg):
    """an equation d*A + B = 0 of degree two: case split on the sign of the integer factor A"""
    for e in (neg.args if neg.op=="and" else (neg,)):
        if e.op!="eq0": continue
        p=e.args[0]
        cnt={}
        for m in p.d:
            if len(m)>=2:
                for r in set(m[:k]+m[k+1:] for k in range(len(m))): cnt[r]=cnt.get(r,0)+1
        for r in sorted(cnt,key=lambda x:(-cnt[x],len(x),tuple(a.id for a in x))):
            if any(a.lo is None or a.lo<0 for a in r): continue
            A={}
            for m,c in p.d.items():
                mm=list(m)
                try:
                    for a in r: mm.remove(a)
                except ValueError: continue
                A[tuple(mm)]=A.get(tuple(mm),0)+c
            A=Poly.mk(A)
            if A.deg()==1 and not A.isconst():
                if any(x.op in("ge0","eq0") and x.args[0] in(A,-A,A-1,-A-1) for x in (neg.args if neg.op=="and" else (neg,))): continue
                return A
    return None
def query(facts,neg,want_model=False,timeout=None,level=3,depth=0):
    """is  /\\facts /\\ neg  unsatisfiable?  returns 'unsat'/'sat'/'unknown', model"""
    global NL
    key=(frozenset(f.id for f in facts),neg.id,level)
    if not want_model and key in Cache.d: return Cache.d[key],None
    t0=time.time(); STATS.q+=1
    timeout=timeout or TIMEOUT
    allb=[f for f in facts]+[neg]
    if FALSE in allb: return "unsat",None
    usebv=hasbv(neg)
    fl=[f for f in facts if usebv or not hasbv(f)]
    atoms=set()
    for f in fl: top_atoms(f,atoms)
    top_atoms(neg,atoms)
    # b2i atoms within bv-goals are not linked (sound over-approximation)
    for _ in range(3):
        af=atom_facts(atoms); n0=len(atoms)
        for k,x in af:
            top_atoms(x,atoms)
        if len(atoms)==n0: break
    fset=set(fl)
    for a in list(atoms):
        # x*y div d < y   when x<d and y>0
        if a.kind=="div" and len(a.args[0].d)==1:
            (m,k),=a.args[0].d.items()
            if k==1 and len(m)==2 and all(z.lo is not None and z.lo>=0 for z in m):
                for x,y in ((m[0],m[1]),(m[1],m[0])):
                    X,Y=Poly.of(x),Poly.of(y)
                    if ge0(P(a.args[1])-X-1) in fset and (y.lo>=1 or ge0(Y-1) in fset): af=af+[("ge",Y-1-Poly.of(a))]
    pos=[f.args[0] for f in fl+[neg] if f.op=="ge0"]+[x for k,x in af if k=="ge"]
    eqs=[f.args[0] for f in fl+[neg] if f.op=="eq0"]
    for f in [neg]:
        if f.op=="and":
            pos+=[g.args[0] for g in f.args if g.op=="ge0"]; eqs+=[g.args[0] for g in f.args if g.op=="eq0"]
    others=[f for f in fl+[neg] if f.op not in("ge0","eq0")]+[x for k,x in af if k=="b"]
    seen=set(); pos=[p for p in pos if not (p in seen or seen.add(p))]
    # monomials
    allp=list(pos)+list(eqs)
    for o in others: lits(o,allp)
    monos=set(m for p in allp for m in p.d if len(m)>=2)
    def lemmas(monos):
        """products of known facts with non-negative factors"""
        lem=[]
        if not monos: return lem
        maxdeg=max(len(m) for m in monos)
        rest={}
        for m in monos:
            for i in range(len(m)):
                rest.setdefault(m[:i]+m[i+1:],set()).add(m[i])
        cands=[r for r in rest if all(a.lo is not None and a.lo>=0 for a in r)]
        linpos=[p for p in pos if p.d and p.deg()<=max(1,maxdeg-1)]
        lineq=[p for p in eqs if p.deg()<=max(1,maxdeg-1)]
        for r in cands:
            rp=Poly.mk({r:1}); part=rest[r]
            for p in linpos:
                if p.deg()+len(r)>maxdeg: continue
                if any((a in part) for m in p.d for a in m): lem.append(("ge",p*rp))
            for p in lineq:
                if p.deg()+len(r)>maxdeg: continue
                if any((a in part) for m in p.d for a in m): lem.append(("eq",p*rp))
        return lem
    lem=[]
    def cons(real):
        out=[]
        for p in pos: out.append(z3cmp(p,real,True))
        for p in eqs: out.append(z3cmp(p,real,False))
        for o in others: out.append(z3n(o,real))
        ms=set()
        for k,p in lem:
            out.append(z3cmp(p,real,k=="ge"))
            for m in p.d:
                if len(m)>=2: ms.add(m)
        for m in ms|monos:
            if all(a.lo is not None and a.lo>=0 for a in m): out.append(z3mono(m,real)>=0)
            if len(m)==2 and m[0] is m[1]: out.append(z3mono(m,real)>=z3atom(m[0],real)) if m[0].lo is not None and m[0].lo>=0 else None
        return out
    res="unknown"; model=None; how=None
    pm=pool_sat(allb)
    if pm is not None:
        STATS.pool+=1; Cache.d[key]="sat"
        return "sat",pm
    try:
        NL=False
        hasuf=any("uf"==x.op for f in [neg] for x in collect(f,lambda y:isinstance(y,BV) and y.op=="uf"))
        r=None
        real=not hasuf
        lem=lemmas(monos)
        if res=="unknown":
            s=z3.SimpleSolver() if not usebv else z3.Solver(); s.set("timeout",min(timeout,3000)); assert_all(s,cons(real))
            r=s.check()
            if r==z3.unsat: res="unsat"; how="z3-lra" if not usebv else "z3-bv"
            elif r==z3.sat:
                model=from_model(s.model(),allb,atoms,real)
                if model is not None: res="sat"
        if res=="unknown" and level>=2 and (not usebv or real):
            s=z3.Solver(); s.set("timeout",timeout); assert_all(s,cons(False))
            r=s.check()
            if r==z3.unsat: res="unsat"; how="z3-lia"
            elif r==z3.sat:
                model=from_model(s.model(),allb,atoms,False)
                if model is not None: res="sat"
        if res=="unknown" and level>=3 and monos:
            A=split_on(neg)
            if A is not None:
                rs=[query(facts,band(neg,c),level=3,depth=depth+1)[0] for c in (ge0(-A-1),ge0(A-1),eq0(A))] if depth<2 else ["x"]
                if all(x=="unsat" for x in rs): res="unsat"; how="z3-lra-split"
                elif "sat" in rs: res="sat"
        if res=="unknown" and level>=3 and monos and depth==0 and real:
            lem2=lemmas(monos|set(m for _,p in lem for m in p.d if len(m)>=2))
            if len(lem)<len(lem2)<4000:
                lem=lem2
                s=z3.SimpleSolver() if not usebv else z3.Solver(); s.set("timeout",min(timeout,3000)); assert_all(s,cons(True))
                if s.check()==z3.unsat: res="unsat"; how="z3-lra-products"
        if res=="unknown" and level>=3 and monos and depth==0:
            NL=True
            s=z3.Solver(); s.set("timeout",timeout); assert_all(s,cons(False))
            r=s.check()
            if r==z3.unsat: res="unsat"; how="z3-nia"
            elif r==z3.sat:
                model=from_model(s.model(),allb,atoms,False)
                res="sat" if model is not None else "sat?"
    except z3.Z3Exception as e:
        res="unknown"; how=str(e)
    finally:
        NL=False
    dt=time.time()-t0; STATS.t+=dt
    if how: STATS.add(how)
    STATS.kinds[res]=STATS.kinds.get(res,0)+1
    if res=="unknown": STATS.unknown+=1
    if dt>0.3: STATS.slow.append((round(dt,2),res,str(neg)[:200]))
    Cache.d[key]=res
    return res,model
def is_unsat(facts,extra,level=3):
    if extra is FALSE or FALSE in facts: return True
    return query(facts,extra,level=level)[0]=="unsat"
def proves(facts,goal,level=3):
    """True iff the solver shows facts => goal"""
    if goal is TRUE: return True
    if goal in facts: return True
    if goal.op=="and": return all(proves(facts,g,level) for g in goal.args)
    return is_unsat(facts,bnot(goal),level)
def model_atoms(model,atoms):
    d={}
    for a in atoms:
        v=model.eval(z3.Int(f"a{a.id}"),model_completion=True)
        try: d[a]=v.as_long()
        except Exception: pass
    return d
