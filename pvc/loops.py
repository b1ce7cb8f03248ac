"""The loop rule.  Carried variables get closed forms (invariant / affine / prefix sum), the iteration space is
computed from the exit conditions, one iteration at a symbolic index t is executed with every obligation recorded,
and the writes of all iterations become one family of write templates."""
from term import *
import term, prover, mem
from mem import *
from exec import *
from exec import _und
import exec as X

class NotLazy(Exception): pass
PURE_OPS={"add","sub","mul","shl","lshr","ashr","and","or","xor","zext","sext","trunc","icmp","getelementptr","select","udiv","urem","bitcast","freeze","insertvalue","extractvalue"}

def lazy(ex,S,L,env,v,depth=0):
    """value of v at the iteration described by env, through pure instructions only"""
    if not isinstance(v,Reg): return ex.const(S,v)
    if v in env: return env[v]
    if v not in L.defs: return S.env[v]
    I=v.d
    if depth>60: raise NotLazy()
    if I.op in PURE_OPS:
        tmp=LazyS(S); 
        ops=[lazy(ex,S,L,env,o,depth+1) for o in I.ops]
        old={}
        for o,x in zip(I.ops,ops):
            if isinstance(o,Reg): old[o]=S.env.get(o,None); S.env[o]=x
        hadd=I.dst in S.env; dv=S.env.get(I.dst)
        try:
            r=ex.step(None,S,None,I)
            res=S.env[I.dst]
        finally:
            for o,x in old.items():
                if x is None: S.env.pop(o,None)
                else: S.env[o]=x
            if hadd: S.env[I.dst]=dv
            else: S.env.pop(I.dst,None)
        env[v]=res
        return res
    if I.op=="load":
        p=lazy(ex,S,L,env,I.ops[0],depth+1)
        if isinstance(p,Ptr) and p.r is not None and p.r.kind=="cell" and p.o.isconst() and (p.r,p.o.cval()) not in env.get("#cells",()):
            r=ex.loadcell(S,p,I.ty); 
            if r is UNDEF: raise NotLazy()
            return r
        if isinstance(p,Ptr) and p.r is not None and p.r.kind=="data" and p.r.es==I.ty.size and p.r.es>=4 and I.ty.k=="int" and p.r not in ex.nolazy:
            # assumed not to be written by the loop; checked after the iteration
            if any(a.name and a.name.startswith("t#") for a in p.o.atoms()): raise NotLazy()
            try: r=S.read(p.r,p.o,p.r.es)
            except NeedFork: raise NotLazy()
            ex.lazyread.add(p.r); env[v]=r
            return r
        raise NotLazy()
    if I.op in("call","invoke"):
        cal=I.x["callee"]
        if isinstance(cal,Const) and cal.k=="func" and ex.contracts.pure(cal.v,ex.M.dm.get(cal.v,cal.v)):
            args=[lazy(ex,S,L,env,o,depth+1) for o in I.ops]
            h=ex.contracts.lookup(cal.v,ex.M.dm.get(cal.v,cal.v))
            r=h(ex,S,I,args,ex.M.dm.get(cal.v,cal.v))
            if isinstance(r,tuple) and r and r[0] in("states","throw"): raise NotLazy()
            env[v]=r
            return r
        raise NotLazy()
    raise NotLazy()
class LazyS:
    def __init__(s,S): pass

def static_step(ex,S,L,phi,latchval):
    """phi_latch = phi + invariant ?"""
    env={}
    for I in L.header.insts:
        if I.op!="phi": break
        env[I.dst]=None
    def inv(v):
        if isinstance(v,Reg) and v in L.defs:
            # must not depend on header phis
            e={}
            class Guard(dict): pass
            g=Guard()
            for I in L.header.insts:
                if I.op=="phi": g[I.dst]=POISON
            r=lazy(ex,S,L,g,v)
            if dep(r): raise NotLazy()
            return r
        return ex.val(S,v)
    def dep(r): return r is POISON
    def walk(v,d=0):
        if v is phi: return ZERO
        if d>20 or not isinstance(v,Reg) or v not in L.defs: return None
        I=v.d
        if I.op=="add":
            for a,b in((0,1),(1,0)):
                s=walk(I.ops[a],d+1)
                if s is not None: return s+topoly(inv(I.ops[b]))
            return None
        if I.op=="sub":
            s=walk(I.ops[0],d+1)
            if s is not None: return s-topoly(inv(I.ops[1]))
            return None
        if I.op=="getelementptr":
            s=walk(I.ops[0],d+1)
            if s is None: return None
            idx=[]
            for o in I.ops[1:]:
                x=inv(o)
                if isinstance(o,Reg) and o.ty.n<64: x=ex.canonS(S,x,o.ty.n)
                idx.append(x)
            p=ex.gep(S,Ptr("X",ZERO),I.x,idx)
            return s+p.o
        if I.op=="freeze": return walk(I.ops[0],d+1)
        return None
    try: return walk(latchval)
    except (NotLazy,Unsupported,KeyError,AttributeError,TypeError,AssertionError): return None
POISON=object()

class Carried:
    """carried variable: list of polynomial components"""
    def __init__(s,key,ty,init): s.key=key; s.ty=ty; s.init=init; s.hyp=None; s.step=None; s.sym=None; s.delta=None
    def __repr__(s): return f"{s.key}:{s.hyp} {s.init} {s.step}"

def split(v):
    """value -> (shape, [Poly]) or None"""
    if isinstance(v,Poly): return ("p",),[v]
    if isinstance(v,Ptr): return ("ptr",v.r),[v.o]
    if isinstance(v,BV): return ("bv",v.w),[topoly(v)]
    if isinstance(v,Bool): return ("b",),[v]
    if isinstance(v,list):
        if all(isinstance(x,(BV,Poly)) for x in v): return ("vec",tuple(x.w if isinstance(x,BV) else 0 for x in v)),[topoly(x) for x in v]
        return None
    return None
def mkbv(p,w):
    if p.isconst(): return bvc(p.cval(),w)
    ok=all(a.kind in("b2i","ite") for a in p.atoms())
    return bvhom(p,w)
def join(shape,ps):
    k=shape[0]
    if k=="p": return ps[0]
    if k=="ptr": return Ptr(shape[1],ps[0])
    if k=="bv": return mkbv(ps[0],shape[1])
    if k=="b": return ps[0]
    if k=="vec": return [mkbv(p,w) if w else p for p,w in zip(ps,shape[1])]
def modw(shape,j,w=None):
    if shape[0]=="bv": return 1<<shape[1]
    if shape[0]=="vec" and shape[1][j]: return 1<<shape[1][j]
    return None
def same_mod(S,a,b,m):
    if a is b: return True
    if isinstance(a,Bool): return S.proves(biff(a,b))
    d=a-b
    if d.isconst(): return d.cval()==0 or (m is not None and d.cval()%m==0)
    if m is not None and all(c%m==0 for c in d.d.values()): return True
    return S.proves(eq0(d))

def summarise(ex,F,S0,L,prev):
    ex.nloop+=1
    if ex.nloop>4000: raise Unsupported("too many loops")
    header=L.header
    if len(L.latches)!=1: raise Unsupported("loop with several latches")
    latch=L.latches[0]
    S=S0.copy()
    S.trace=list(S0.trace)
    phis=[I for I in header.insts if I.op=="phi"]
    car=[]
    for I in phis:
        v=ex.val(S,I.ops[I.x.index(prev)])
        c=Carried(I.dst,I.ty,v); c.latch=I.ops[I.x.index(latch)]
        car.append(c)
    for c in car:
        if c.latch is c.key or (not isinstance(c.latch,Reg) and False): c.hyp="inv"; continue
        if isinstance(c.init,(Poly,Ptr)) or (isinstance(c.init,BV)):
            st=static_step(ex,S,L,c.key,c.latch)
            if st is not None: c.hyp="affine"; c.step=[st]; continue
        c.hyp="opaque"
        if isinstance(c.init,Poly):
            v=None
            if isinstance(c.latch,Const): v=ex.val(S,c.latch)
            elif isinstance(c.latch,Reg) and not any(I.dst is c.latch for b in L.blocks for I in b.insts): v=S.env.get(c.latch)
            if isinstance(v,Poly): c.hyp="first"; c.step=[v]      # one value at the first iteration, another one afterwards
    for c in car:
        sp=split(c.init)
        if sp is None:
            if c.init is UNDEF or isinstance(c.init,(list,tuple)): 
                c.hyp="any"; c.shape=None; continue
            c.hyp="any"; c.shape=None; continue
        c.shape,c.ps=sp
    nobl=len(ex.obls); wset=[None]
    for rnd in range(10):
        del ex.obls[nobl:]
        r=attempt(ex,F,S,L,prev,car,latch,wset)
        if r is not None: return r
    raise Unsupported("loop classification did not converge")

def as_add(S,r,n,ta):
    """a store of (value before the store + v), among accumulations, is the accumulation of v"""
    if n.kind!="set" or r.es<4 or any(w.idx or w.guard is not TRUE or w.size!=r.es for w in n.ts) or len(n.ts)!=1: return n
    w=n.ts[0]
    v=topoly(w.val)-topoly(mem.read(S,r,n.prev,w.off,w.size))
    if any(x.args[1] is r for x in lpnodes(v,ta)): return n
    return Node_(n.prev,[T([],w.off,w.size,v,w.guard,w.key)],"add")
def regroup_adds(ts):
    """accumulations of neighbouring lanes as one family (additions commute: their order does not matter)"""
    groups={}
    for w in ts:
        k=(len(w.idx),w.size,tuple(c for _,c in w.idx),w.guard)
        groups.setdefault(k,[]).append(w)
    out=[]
    for k,ws in groups.items():
        if len(ws)<4: out+=ws; continue
        base=ws[0]; norm=[]
        for w in ws:
            m={a:Poly.of(b) for (a,_),(b,_) in zip(w.idx,base.idx) if a is not b}
            f=Subst(m) if m else (lambda x:x)
            if any(f(c) is not d for (_,c),(_,d) in zip(w.idx,base.idx)) or f(w.guard) is not base.guard: norm=None; break
            norm.append((f(w.off),f(w.val) if isinstance(w.val,Poly) else f(b2i(w.val))))
        if norm is None: out+=ws; continue
        norm.sort(key=lambda x:x[0].d.get((),0))
        while norm:
            for m in range(len(norm),1,-1):
                g=uniform([o for o,_ in norm[:m]]); h=uniform([v for _,v in norm[:m]]) if g else None
                if g is None or h is None: continue
                (l,off),(l2,val)=g,h
                out.append(T(base.idx+[(l,P(m))],off,base.size,Subst({l2:Poly.of(l)})(val),base.guard,base.key)); norm=norm[m:]; break
            else:
                out.append(T(base.idx,norm[0][0],base.size,norm[0][1],base.guard,base.key)); norm=norm[1:]
    return out
def cval_at(c,t):
    """value of carried variable at iteration t"""
    if c.hyp=="inv": return c.init
    if c.hyp=="affine":
        return join(c.shape,[p+s*t for p,s in zip(c.ps,c.step)])
    if c.hyp=="first": return c.step[0]+iteP(eq0(P(t)),c.init-c.step[0],ZERO)
    if c.hyp=="closed":
        a,d=c.step
        return join(c.shape,[p+sum_(a,P(t),x) for p,x in zip(c.ps,d)])
    if c.hyp=="any": return UNDEF if c.shape is None else c.init
    if c.hyp=="opaque":
        if c.sym is None:
            if c.shape[0]=="b": c.sym=[bvar(f"phi{next(_und)}")]
            else: c.sym=[var("phi",None,None,fresh=True,kind="phi") for _ in c.ps]
        return join(c.shape,c.sym)
    raise Stuck(c.hyp)

def fresh_t(): return atom_of(var("t",0,None,fresh=True,kind="idx"))

def setcar(S,c,v):
    if isinstance(c.key,Reg): S.env[c.key]=v
    elif c.key[0]=="cell": S.cells[c.key[1]][c.key[2]]=(v,c.key[3])
    elif c.key[0]=="obj": S.obj[c.key[1]].f[c.key[2]]=v
def getcar(S,c):
    if isinstance(c.key,Reg): return None
    if c.key[0]=="cell": return S.cells[c.key[1]].get(c.key[2],(UNDEF,0))[0]
    return S.obj[c.key[1]].f.get(c.key[2])

def exit_conditions(ex,S,L,car,t):
    """lazily evaluated exit conditions as functions of t: list of (block, cond or None)"""
    env={c.key:cval_at(c,t) for c in car if isinstance(c.key,Reg)}
    env["#cells"]=set((c.key[1],c.key[2]) for c in car if not isinstance(c.key,Reg) and c.key[0]=="cell" and c.hyp!="inv")
    out=[]; assumptions=[]
    blocks=[]
    for b,s in L.exits:
        if b in blocks: continue
        blocks.append(b)
        term_=b.insts[-1]
        cond=None
        if term_.op=="br" and len(term_.x)==2:
            save=ex.optimistic; ex.optimistic=[]
            try:
                c=lazy(ex,S,L,env,term_.ops[0])
                if isinstance(c,Bool):
                    ins=[x in L.blocks for x in term_.x]
                    if ins==[True,False]: cond=bnot(c)
                    elif ins==[False,True]: cond=c
                    else: cond=TRUE
                    assumptions+=ex.optimistic
            except (NotLazy,KeyError): cond=None
            finally: ex.optimistic=save
        out.append((b,cond))
    return out,assumptions

def solve_exit(ex,S,cond,t,canfork):
    """smallest t>=0 where cond(t) holds, as Poly; None if not affine.  raises NeedFork"""
    ta=atom_of(t)
    if cond is TRUE: return ZERO,[]
    if cond is FALSE: return "never",[]
    neg=False
    if cond.op=="not" and cond.args[0].op=="eq0":
        p=cond.args[0].args[0]
        # exits as soon as p != 0
        L=linear(p,[ta])
        if L is None: return None
        a,co=L; b=co[ta]
        if not b.d:
            return None
        z=eq0(a)
        if S.proves(bnot(z)): return ZERO,[]
        if S.proves(z) and S.proves(bnot(eq0(b))): return ONE,[]
        if canfork: raise NeedFork(z)
        return None
    if cond.op=="or":
        rs=[solve_exit(ex,S,x,t,canfork) for x in cond.args]
        if any(r is None for r in rs): return None
        rs=[r for r in rs if r[0]!="never"]
        return min_T(S,[r[0] for r in rs]),[l for r in rs for l in r[1]]
    if cond.op not in("ge0","eq0"): return None
    p=cond.args[0]; L=linear(p,[ta])
    if L is None: return None
    a,co=L; b=co[ta]
    if not b.d:
        # independent of t
        c=cond
        if S.proves(c): return ZERO,[]
        if S.proves(bnot(c)): return "never",[]
        if fa(c)&set(x for x in fa(c) if x.kind=="phi"): return None
        raise NeedFork(c)
    if cond.op=="ge0":
        if S.proves(ge0(b-1)):
            if S.proves(ge0(a)): return ZERO,[]
            if not S.proves(ge0(-a)): raise NeedFork(ge0(a))
            # TC = ceil(-a/b)
            if b.isconst(): TC=fdiv(-a+b-1,b)
            else:
                q=divexact(-a,b)
                if q is not None: TC=q
                else:
                    TC=fdiv(-a+b-1,b)
            return TC,[]
        if S.proves(ge0(-b)):
            if S.proves(ge0(a)): return ZERO,[]
            if S.proves(ge0(-a-1)): return "never",[]
            raise NeedFork(ge0(a))
        raise NeedFork(ge0(b-1)) if canfork else Unsupported("sign of loop step")
    # equality exit
    if S.proves(ge0(-b-1)): a,b=-a,-b
    elif not S.proves(ge0(b-1)):
        # step may be zero
        if canfork and not S.proves(eq0(b)): raise NeedFork(ge0(b-1))
        if S.proves(eq0(a)): return ZERO,[]
        return "never",[]
    q=divexact(-a,b)
    if q is None:
        if b.isconst():
            r=fmod(-a,b)
            if not S.proves(eq0(r)):
                if S.proves(bnot(eq0(r))): return "never",[]
                if canfork: raise NeedFork(eq0(r))
                return None
            q=fdiv(-a,b)
        else:
            # try facts: -a = b*q + r with r == 0 provable
            dm=divmod_poly(-a,b)
            if dm and S.proves(eq0(dm[1])): q=dm[0]
            else: return None
    return q,[]
def min_T(S,Ts):
    Ts=list(Ts)
    m=Ts[0]
    for x in Ts[1:]:
        if S.proves(le(m,x)): continue
        if S.proves(le(x,m)): m=x; continue
        raise NeedFork(le(m,x))
    return m

def attempt(ex,F,S,L,prev,car,latch,wset):
    ta=fresh_t(); t=Poly.of(ta)
    for c in car: c.sym=None
    D=S.copy(); D.facts.append(ge0(t)); D.depth+=1
    ex.lazyread=set()
    exits,assum=exit_conditions(ex,D,L,car,t); lazyread=ex.lazyread
    for a in assum:
        if any(x.kind=="phi" for x in fa(a)): pass
    known=[]; data=[]
    for b,c in exits:
        if c is None: data.append(b); continue
        if any(x.kind=="phi" for x in fa(c)) or (hasbvb(c) and collect(c,lambda n: isinstance(n,BV) and n.op not in("var","zext","const") or isinstance(n,Bool) and n.op.startswith("bv"))): data.append(b); continue
        if c.op not in("ge0","eq0","true","false","not","or"): data.append(b); continue
        known.append((b,c))
    TC=None; Ts=[]
    for b,c in known:
        try: r=solve_exit(ex,S,c,t,True)
        except NeedFork as nf:
            if ta in fa(nf.cond): raise Unsupported("exit condition")
            raise
        if r is None: data.append(b); continue
        if r[0]!="never": Ts.append((r[0],c))
    if not Ts and not data:
        ex.oblige(S,"loop terminates",FALSE,f"{L.id}")
        return []
    if Ts:
        TC=min_T(S,[x for x,_ in Ts])
        g=ge0(TC)
        if not S.proves(g):
            if S.proves(bnot(g)):
                ex.oblige(S,"loop terminates",FALSE,f"{L.id} trip count {TC}")
                return []
            raise NeedFork(g)
    if assum and TC is not None:
        tt=S.copy(); tt.facts+=[ge0(t),ge0(TC-t)]
        for a in assum:
            if not tt.proves(a): raise Unsupported(f"loop counter may wrap: {a} (trip {TC})")
    unb=False
    if TC is None:
        # no affine bound: data-dependent loop
        if __import__("os").environ.get("PVC_DBG"): print("EXITS",exits)
        raise Unsupported("loop without affine exit")
    if data and (os_fold(ex)): pass
    if TC.isconst() and TC.cval()<=ex.unroll: return unroll(ex,F,S,L,prev,car,TC.cval())
    # ---------------- one generic iteration
    B=S.copy(); B.depth+=1; B.trace=[]
    n0=len(B.facts)
    B.facts.append(ge0(t)); B.facts.append(ge0(TC-t-1))
    for (Tk,c) in Ts:
        if c.op in("eq0","ge0","or","not"): B.facts.append(bnot(c))
    B.facts=[f for f in B.facts if f is not TRUE]
    n1=len(B.facts)
    pre=dict(B.mem)
    for r in B.mem:
        # regions the body does not write (known after the first attempt) keep their contents
        if wset[0] is None or r in wset[0]: B.mem[r]=Prefix(ta,r,pre[r])
    B0mem=dict(B.mem)
    for c in car: setcar(B,c,cval_at(c,t))
    cells0={r:dict(d) for r,d in B.cells.items()}; obj0={k:o.copy() for k,o in B.obj.items()}
    feasible=not prover.is_unsat(B.facts,TRUE)
    outs=ex.explore(F,B,L.header,None,within=L.blocks,header=L.header) if feasible else []
    lat=[o for o in outs if o.k=="latch"]; other=[o for o in outs if o.k!="latch"]
    other=[o for o in other if o.S.feasible()]
    wr=set(r for o in lat+other for r,n in o.S.mem.items() if r in pre and n is not (B0mem[r]))
    if lazyread&wr: ex.nolazy|=lazyread&wr; wset[0]=(wset[0] or set())|wr; return None
    # ---------------- carried variables
    again=False
    if wset[0] is None:
        if any((ta,r) in mem.LPREAD for r in pre if r not in wr): again=True
        wset[0]=wr
    elif not wr<=wset[0]: wset[0]=wset[0]|wr; return None
    def newval(c,o):
        if isinstance(c.key,Reg): return ex.val(o.S,c.latch)
        return getcar(o.S,c)
    for c in car:
        if c.hyp=="any": continue
        cur=cval_at(c,t)
        vals=[newval(c,o) for o in lat]
        if not vals: continue
        sp=[split(v) for v in vals]
        if any(x is None or x[0]!=c.shape for x in sp):
            # a different kind of value (e.g. pointer into another object)
            if c.hyp in("inv","affine","first","closed"): c.hyp="opaque"; c.sym=None; again=True; c.tried=True; continue
            c.hyp="any"; again=True; continue
        cp=split(cur)[1]
        if c.hyp in("first","closed"):
            nx=split(cval_at(c,t+1))[1]
            if not all(same_mod(o.S,x,y,modw(sh,j)) for o,(sh,ps) in zip(lat,sp) for j,(x,y) in enumerate(zip(ps,nx))):
                c.hyp="opaque"; c.sym=None; again=True; c.tried=True
            continue
        if c.hyp in("inv","affine"):
            st=c.step if c.hyp=="affine" else [ZERO]*len(c.ps)
            for o,(sh,ps) in zip(lat,sp):
                for j,(x,y) in enumerate(zip(ps,cp)):
                    tgt=y+st[j] if not isinstance(y,Bool) else y
                    if not same_mod(o.S,x,tgt,modw(sh,j)):
                        c.hyp="opaque"; c.sym=None; again=True; break
                if again and c.hyp=="opaque": break
            continue
        # opaque: can it be promoted?
        if c.shape[0]=="b":
            if all(p[1][0] is cp[0] for p in sp): c.hyp="inv"; again=True
            else: c.delta=None
            continue
        deltas=[]
        for sh,ps in sp: deltas.append([x-y for x,y in zip(ps,cp)])
        syms=set(a for c2 in car if c2.hyp=="opaque" and c2.sym and c2.shape[0]!="b" for y in c2.sym for a in y.atoms())
        ok=all(not(fa(d)&syms) for ds in deltas for d in ds)
        const=ok and all(ds==deltas[0] for ds in deltas) and all(ta not in fa(d) and not lpnodes(d,ta) for d in deltas[0])
        if const:
            if all(not d.d for d in deltas[0]): c.hyp="inv"
            else: c.hyp="affine"; c.step=deltas[0]
            again=True
        elif ok:
            c.delta=deltas
            if not getattr(c,"tried",False) and all(ds==deltas[0] for ds in deltas) and not any(lpnodes(d,ta) for d in deltas[0]):
                cl=[sum_(ta,t,d) for d in deltas[0]]
                if not any(a.kind=="sum" for x in cl for a in fa(x)): c.hyp="closed"; c.step=(ta,deltas[0]); again=True
        else: c.delta=None
    # cells / objects changed by the body
    known_keys=set(c.key for c in car if not isinstance(c.key,Reg))
    for o in lat+other:
        for r,d in o.S.cells.items():
            d0=cells0.get(r)
            if d0 is None: continue   # created inside
            for off,(v,z) in d.items():
                v0=d0.get(off,(UNDEF,z))
                k=("cell",r,off,z)
                if k in known_keys: continue
                if not sameval(v,v0[0]):
                    c=Carried(k,None,S.cells[r].get(off,(UNDEF,z))[0]); sp=split(c.init)
                    if sp is None: c.hyp="any"; c.shape=None
                    else: c.shape,c.ps=sp; c.hyp="opaque"
                    car.append(c); known_keys.add(k); again=True
        for k0,ob in o.S.obj.items():
            ob0=obj0.get(k0)
            if ob0 is None: continue
            for fn in ob.f:
                k=("obj",k0,fn)
                if k in known_keys: continue
                if not sameval(ob.f[fn],ob0.f.get(fn,UNDEF)):
                    c=Carried(k,None,S.obj[k0].f.get(fn,UNDEF)); sp=split(c.init)
                    if sp is None: c.hyp="any"; c.shape=None
                    else: c.shape,c.ps=sp; c.hyp="opaque"
                    car.append(c); known_keys.add(k); again=True
        for k0 in obj0:
            if k0 not in o.S.obj: raise Unsupported("object destroyed inside a loop")
    if again: return None
    # ---------------- collect writes
    fold={}
    tmpl={}     # region -> list of T (with t as outermost index)
    kinds={}
    for o in lat:
        pc=[f for f in o.S.facts[n1:]]
        guard=band(*pc) if pc else TRUE
        for r,node in o.S.mem.items():
            if r not in pre: continue
            if wset[0] is not None and r not in wset[0] and node is pre[r]: continue
            if not isinstance(B0mem[r],Prefix): continue
            chain=[]
            n=node
            while not isinstance(n,Prefix) or n.loop is not ta:
                if n is INIT or isinstance(n,Prefix): raise Unsupported("memory chain")
                chain.append(n); n=n.prev
            chain.reverse()
            if any(n.kind=="add" for n in chain): chain=[as_add(o.S,r,n,ta) for n in chain]
            for n in chain:
                if kinds.setdefault(r,n.kind)!=n.kind: kinds[r]="mixed"
                for w in n.ts:
                    tmpl.setdefault(r,[]).append((T_outer(w,ta,TC,guard),o))
    # merge identical writes of complementary paths is left to the guards
    # ---------------- sums for opaque carried variables
    sub={}; nodesub={}
    post={}
    for c in car:
        if c.hyp!="opaque": continue
        if c.delta is None: post[id(c)]=None; continue
        dl=[]
        for j in range(len(c.ps)):
            m=modw(c.shape,j)
            ds=[d[j] for d in c.delta]
            if all(x is ds[0] for x in ds): d=ds[0]
            else:
                d=ds[-1]
                for x,o in zip(ds[:-1],lat[:-1]):
                    g=band(*o.S.facts[n1:]); d=iteP(g,x,d)
            dl.append(d)
        c.dl=dl
    # resolve loop-prefix reads
    Wr={r:[w for w,_ in ws] for r,ws in tmpl.items()}
    def resolver(extra):
        return lambda x: resolve(ex,S,L,x,ta,t,TC,pre,Wr,extra,n1,B.facts)
    adds={}
    for r,ws in list(tmpl.items()):
        new=[]
        isadd=kinds[r]=="add"
        if kinds[r]=="mixed": raise Unsupported("mixed accumulation and stores")
        # accumulation pattern
        if not isadd:
            acc=[accum(w,ta,r) for w,_ in ws]
            if acc and all(a is not None for a in acc) :
                isadd=True; ws=[(T(w.idx,w.off,w.size,a,w.guard,w.key),o) for (w,o),a in zip(ws,acc)]
        if kinds[r]=="range" or not isadd:
            rng=[hull(w,ta,r) if kinds[r]!="range" else w.box for w,_ in ws] if kinds[r]=="range" or any(depends(w,ta,r) for w,_ in ws) else [None]
            if all(h is not None for h in rng):
                # conditional updates of a bounded value: only the bounds are kept
                adds[r]="range"
                tmpl[r]=[T([(a,resolver(w.ranges())(cn)) for a,cn in w.idx],resolver(w.ranges())(w.off),w.size,None,TRUE,w.key,box=h) for (w,_),h in zip(ws,rng)]
                continue
            if kinds[r]=="range": raise Unsupported("bounded updates and stores")
        for w,o in ws:
            rs=resolver(w.ranges()+([w.guard] if w.guard is not TRUE else []))
            g0=resolver(w.ranges())(w.guard)
            nw=T(w.idx,rs(w.off),w.size,rs(w.val),g0,w.key)
            nw.idx=[(a,rs(cn)) for a,cn in w.idx]
            new.append(nw)
        if isadd and len(new)>3: new=regroup_adds(new)
        adds[r]=isadd
        tmpl[r]=new
    for c in car:
        if c.hyp=="opaque" and c.delta is not None:
            rs=resolver([ge0(t),ge0(TC-t-1)])
            c.dl=[rs(d) for d in c.dl]
    # closed forms for sums
    f_t={}
    symsub={}
    for c in car:
        if c.hyp!="opaque": continue
        if c.delta is None:
            continue
        k=fresh_t()
        for j,(p,d) in enumerate(zip(c.ps,c.dl)):
            body=Subst({ta:Poly.of(k)})(d)
            symsub[atom_of(c.sym[j])]=(p,k,body)
    unresolved=set()
    for c in car:
        if c.hyp=="opaque" and c.delta is None and c.sym:
            for y in c.sym: unresolved|= set(y.atoms()) if isinstance(y,Poly) else {y}
    if symsub:
        fs=Subst({a:p+sum_(k,t,body) for a,(p,k,body) in symsub.items()})
    else: fs=lambda x:x
    for r in tmpl:
        tmpl[r]=[w.subst(fs) if symsub else w for w in tmpl[r]]
        for w in tmpl[r]:
            for x in (w.off,w.val,w.guard):
                if x is None: continue
                if fa(x)&unresolved: raise Unsupported("write depends on an unsummarised loop variable")
                for y in unresolved:
                    if isinstance(y,Bool) and collect(x,lambda n:n is y): raise Unsupported("write depends on an unsummarised loop flag")
    if other:
        res=early(ex,F,S,L,car,ta,t,TC,other,lat,tmpl,adds,resolver,symsub,unresolved,n1,pre)
    else: res=[]
    # ---------------- after the loop
    A=S.copy()
    attach(A,tmpl,adds,None)
    for c in car:
        if c.hyp=="opaque":
            if c.delta is None:
                v=UNDEF if c.shape is None else havoc(c.shape)
            else:
                v=join(c.shape,[p+sum_(k,TC,body) for p,(k,body) in ((symsub[atom_of(s)][0],symsub[atom_of(s)][1:]) for s in c.sym)])
        else: v=cval_at(c,TC)
        setcar(A,c,v)
    A.foralls=[]
    if other: note_forall(A,S,ta,TC,lat,resolver,n1,symsub)
    fin=ex.explore(F,A,L.header,None,within=L.blocks,header=L.header)
    for o in fin:
        if o.k=="latch":
            if o.S.feasible():
                ex.oblige(o.S,"loop exits after its last iteration",FALSE,f"{L.id}")
            continue
        res.append(o)
    return res
def os_fold(ex): return False
def note_forall(A,S,ta,TC,lat,resolver,n1,symsub):
    """every one of the first TC iterations took a continuing path: bounded-quantifier facts ([(index,count)..],condition)"""
    if symsub: raise Unsupported("early exit with sums")
    g=bor(*[band(*o.S.facts[n1:]) for o in lat]) if lat else FALSE
    ents=[]
    g=resolver([])(g)
    if g is not TRUE: ents.append(([(ta,TC)],g))
    if len(lat)==1:
        for idx,g2 in lat[0].S.tag.get("forall",[])[len(S.tag.get("forall",[])):]:
            rng=[x for a,c in idx for x in (ge0(Poly.of(a)),lt(Poly.of(a),c))]
            ents.append(([(ta,TC)]+[(a,resolver([])(c)) for a,c in idx],resolver(rng)(g2)))
    A.tag["forall"]=A.tag.get("forall",[])+ents
def early(ex,F,S,L,car,ta,t,TC,other,lat,tmpl,adds,resolver,symsub,unresolved,n1,pre):
    """exits in the middle of iteration k: prefix of k full iterations, then the partial one"""
    k=var("k",0,None,fresh=True); f=Subst({ta:k})
    res=[]
    A=S.copy(); A.depth=S.depth
    A.facts+= [ge0(k),ge0(TC-k-1)]
    note_forall(A,S,ta,k,lat,resolver,n1,symsub)
    attach(A,tmpl,adds,k)
    for c in car:
        setcar(A,c,cval_at(c,k) if c.hyp!="opaque" else (UNDEF if c.shape is None else havoc(c.shape)))
    fin=ex.explore(F,A,L.header,None,within=L.blocks,header=L.header)
    for o in fin:
        if o.k=="latch": continue     # not an exit at k
        res.append(o)
    return res
def havoc(shape):
    if shape[0]=="b": return bvar(f"havoc{next(_und)}")
    if shape[0]=="bv": return bvvar(f"havoc{next(_und)}",shape[1])
    n=len(shape[1]) if shape[0]=="vec" else 1
    return join(shape,[var("havoc",None,None,fresh=True) for _ in range(n)])
def attach(A,tmpl,adds,count):
    n=len(A.trace)
    for r,ws in tmpl.items():
        ts=[]
        for w in ws:
            if count is not None: w=T([(w.idx[0][0],count)]+list(w.idx[1:]),w.off,w.size,w.val,w.guard,w.key,box=w.box)
            ts.append(T(w.idx,w.off,w.size,w.val,w.guard,(n,)+tuple(w.key),box=w.box))
        A.mem[r]=Node_(A.mem.get(r,INIT),ts,"range" if adds[r]=="range" else "add" if adds[r] else "set")
    A.trace.append(("loop",))
def T_outer(w,ta,cnt,guard):
    return T([(ta,cnt)]+list(w.idx),w.off,w.size,w.val,band(w.guard,guard),(ta,)+tuple(w.key),box=w.box if w.val is None else None)
def sameval(a,b):
    if a is b: return True
    if isinstance(a,Ptr) and isinstance(b,Ptr): return a==b
    if isinstance(a,list) and isinstance(b,list): return len(a)==len(b) and all(sameval(x,y) for x,y in zip(a,b))
    if isinstance(a,tuple) and isinstance(b,tuple): return len(a)==len(b) and all(sameval(x,y) for x,y in zip(a,b))
    if isinstance(a,(Poly,Node)) or isinstance(b,(Poly,Node)): return False
    return a==b
def lpnodes(x,ta): return collect(x,lambda n:n.op=="lp" and n.args[0] is ta)
def accum(w,ta,r):
    """w.val == old value at the same address + v"""
    if not isinstance(w.val,Poly): return None
    for m,c in w.val.d.items():
        if c==1 and len(m)==1 and m[0].kind=="b2i":
            n=m[0].args[0]
            if n.op=="lp" and n.args[0] is ta and n.args[1] is r and n.args[2] is w.off and n.w==8*w.size:
                rest=w.val-Poly.of(m[0])
                if not any(x.args[1] is r for x in lpnodes(rest,ta)): return rest
    return None
def depends(w,ta,r): return w.val is not None and any(n.args[1] is r for x in(w.guard,w.val) for n in lpnodes(x,ta))
def hull(w,ta,r):
    """constant bounds of the values an update stores, given that it keeps the old value otherwise"""
    if w.size<4 or not isinstance(w.val,Poly) or any(n.args[1] is r for n in lpnodes(w.off,ta)): return None
    los=[];his=[]
    def go(v):
        if isinstance(v,Poly) and len(v.d)==1:
            (m,c),=v.d.items()
            if c==1 and len(m)==1:
                a=m[0]
                if a.kind=="b2i" and a.args[0].op=="lp" and a.args[0].args[:2]==(ta,r) and a.args[0].args[2] is w.off: return True
                if a.kind=="ite": return go(a.args[1]) and go(a.args[2])
        lo,hi=term.interval(v)
        if lo is None or hi is None: return False
        los.append(lo); his.append(hi); return True
    return (P(min(los)),P(max(his))) if go(w.val) and los else None
def resolve(ex,S,L,x,ta,t,TC,pre,Wr,extra,n1,bfacts):
    for _ in range(20):
        ns=lpnodes(x,ta)
        if not ns: return x
        # innermost first
        ns=[n for n in ns if not lpnodes(n.args[2],ta)]
        nodes={}
        C=S.copy(); C.facts=list(bfacts)+[e for e in extra if e is not TRUE]
        for n in ns:
            r=n.args[1]; off=n.args[2]; size=n.w//8
            for w in Wr.get(r,[]):
                rn,m=w.rename()
                fs=rn.ranges()+([rn.guard] if rn.guard is not TRUE else [])+mem.overlap(rn,off,size)+[lt(m[ta],t)]
                if any(f is FALSE for f in fs): continue
                if not prover.is_unsat(C.facts,band(*fs)): raise Unsupported(f"iteration reads {r}+{off} which an earlier iteration may have written")
            v=read_ite(C,r,pre[r],off,size)
            nodes[n]=tobv(v,n.w) if not isinstance(v,Poly) else v
        polysub={}; bvsub={}
        for n,v in nodes.items():
            if isinstance(v,Poly): polysub[term._atom("b2i",(n,),None,0,(1<<n.w)-1)]=v
            else: bvsub[n]=v
        if polysub: x=Subst(polysub)(x)
        if bvsub: x=Subst({},bvsub)(x)
    raise Unsupported("resolve")
def unroll(ex,F,S,L,prev,car,n):
    """constant small trip count: iterate"""
    work=[S.copy()]
    for c in car:
        if isinstance(c.key,Reg): work[0].env[c.key]=c.init
    done=[]
    for k in range(n+1):
        nxt=[]
        for A in work:
            for o in ex.explore(F,A,L.header,None,within=L.blocks,header=L.header):
                if o.k=="latch":
                    I=[i for i in L.header.insts if i.op=="phi"]
                    vals=[(i.dst,ex.val(o.S,i.ops[i.x.index(o.frm)])) for i in I]
                    for d,v in vals: o.S.env[d]=v
                    nxt.append(o.S)
                else: done.append(o)
        work=nxt
    if any(w.feasible() for w in work): raise Unsupported("unrolling did not finish")
    return done
