"""Symbolic memory: data regions as persistent chains of loop-summarised writes."""
from term import *
import term, prover

class Unsupported(Exception): pass
class NeedFork(Exception):
    def __init__(s,cond): s.cond=cond

class Region:
    n=0
    def __init__(s,name,es=1,size=None,kind="data",ro=False,undef=False):
        Region.n+=1; s.id=Region.n; s.name=name; s.es=es; s.size=size; s.kind=kind; s.ro=ro; s.undef=undef; s.obj=None; s.fill=None
        s.snapshot=None   # (region,node,facts) of which the initial content is a copy
    def __repr__(s): return f"{s.name}"
    def __lt__(s,o): return s.id<o.id
class Ptr:
    __slots__=("r","o")
    def __init__(s,r,o): s.r=r; s.o=o
    def __repr__(s): return f"&{s.r}+{s.o}"
    def __eq__(s,x): return isinstance(x,Ptr) and s.r is x.r and s.o is x.o
    def __hash__(s): return hash((id(s.r),s.o.id))
class FPtr:
    __slots__=("name",)
    def __init__(s,n): s.name=n
    def __eq__(s,x): return isinstance(x,FPtr) and s.name==x.name
    def __hash__(s): return hash(s.name)
    def __repr__(s): return f"fn:{s.name}"
NULL=Ptr(None,ZERO)

class T:
    """one family of writes: for all idx in ranges with guard: [off .. off+size) := val.
    key orders instances: alternating index atoms / statement numbers, outermost first"""
    __slots__=("idx","off","size","val","guard","key","box")
    def __init__(s,idx,off,size,val,guard=TRUE,key=(),box=None): s.box=box; s.idx=list(idx); s.off=off; s.size=size; s.val=val; s.guard=guard; s.key=tuple(key)
    def __repr__(s): return f"T(for {[(a,c) for a,c in s.idx]} [{s.off}]:{s.size} := {s.val} if {s.guard})"
    def subst(s,f):
        return T([(a,f(c)) for a,c in s.idx],f(s.off),s.size,f(s.val) if s.val is not None else None,f(s.guard),s.key,s.box and tuple(f(x) for x in s.box))
    def rename(s):
        """fresh index atoms"""
        m={}
        idx=[]
        for a,c in s.idx:
            b=var(a.name.split("#")[0],0,a.hi,fresh=True,kind="idx")
            idx.append((atom_of(b),Subst(m)(c) if m else c)); m[a]=b
        f=Subst(m)
        return T(idx,f(s.off),s.size,f(s.val) if s.val is not None else None,f(s.guard),tuple(atom_of(m[k]) if isinstance(k,Atom) and k in m else k for k in s.key)),m
    def ranges(s):
        out=[]
        for a,c in s.idx: out.append(ge0(Poly.of(a))); out.append(lt(Poly.of(a),c))
        return out
class Node_:
    __slots__=("prev","ts","kind")
    def __init__(s,prev,ts,kind="set"): s.prev=prev; s.ts=ts; s.kind=kind
class Prefix:
    """memory at the start of iteration t of a loop whose writes are not known yet"""
    __slots__=("loop","region","pre")
    def __init__(s,loop,region,pre): s.loop=loop; s.region=region; s.pre=pre
INIT=None

def lp(loop,region,off,size,w=None): return term._mk(BV,"lp",size*8,(loop,region,off))
term_rebuild=term.rebuild

def linear(off,idx):
    """off = off0 + sum coef_i*idx_i, coefficients free of the indices; None when not linear"""
    coefs={a:ZERO for a in idx}; rest={}
    S=set(idx)
    for m,c in off.d.items():
        hit=[a for a in m if a in S]
        deep=[a for a in m if a not in S and fa_atom(a)&S]
        if deep: return None
        if not hit: rest[m]=c
        elif len(hit)==1:
            mm=list(m); mm.remove(hit[0]); coefs[hit[0]]=coefs[hit[0]]+Poly.mk({tuple(mm):c})
        else: return None
    return Poly.mk(rest),coefs
def solve(off,idx,A,counts=None):
    """candidate index values with off(idx)==A, or None"""
    L=linear(off,[a for a in idx])
    if L is None: return None
    o0,co=L
    rem=A-o0; out={}
    order=sorted(idx,key=lambda a:(-co[a].deg(), -(abs(co[a].cval()) if co[a].isconst() else (1<<62))))
    for n,a in enumerate(order):
        c=co[a]
        if not c.d:
            return None if False else _free(out,a)
        if c.isconst():
            k=c.cval()
            if k in(1,-1): out[a]=rem*k; rem=ZERO
            elif k>0: 
                q=fdiv(rem,k); out[a]=q; rem=rem-q*k
            else:
                # what is left for the remaining indices has their sign
                up=any(co[b].isconst() and co[b].cval()>0 for b in order[n+1:])
                q=fdiv(-rem-k-1,-k) if up else fdiv(-rem,-k); out[a]=q; rem=rem-q*k
        else:
            q,r=divmod_poly(rem,c)
            out[a]=q; rem=r
    return out,rem
def _free(out,a): return None

STAT={"reads":0}
LPREAD=set()   # (loop,region) pairs read through a loop prefix
def overlap(r,A,size):
    if r.size==size and size>1:
        x,y=divexact(r.off,P(size)),divexact(A,P(size))
        if x is not None and y is not None: return [eq(x,y)]     # aligned elements overlap only when equal
    if r.size==size: return [eq(r.off,A)] if size==1 else [lt(r.off,A+size),lt(A,r.off+r.size)]
    return [lt(r.off,A+size),lt(A,r.off+r.size)]
def writes_conflict(S,t,A,size,extra=()):
    """can some instance of template t touch [A,A+size)?  None if provably not, else the renamed template"""
    r,_=t.rename()
    fs=r.ranges()
    if r.guard is not TRUE: fs.append(r.guard)
    fs+=overlap(r,A,size)+list(extra)
    if any(f is FALSE for f in fs): return None
    if prover.is_unsat(S.facts,band(*fs)): return None
    return r
def later_conflict(S,u,ikey,cand,A,size,g=TRUE):
    """may an instance of u that comes later than instance `cand` of the template with key ikey touch A?"""
    r,m=u.rename()
    base=r.ranges()+([r.guard] if r.guard is not TRUE else [])+overlap(r,A,size)+([g] if g is not TRUE else [])
    if any(f is FALSE for f in base): return False
    eqs=[]
    n=max(len(ikey),len(u.key))
    for k in range(n):
        x=ikey[k] if k<len(ikey) else None; y=u.key[k] if k<len(u.key) else None
        if isinstance(x,Atom) and x is y:
            d=lt(cand[x],m[x])
            if d is not FALSE and not prover.is_unsat(S.facts,band(*(base+eqs+[d]))): return True
            eqs.append(eq(cand[x],m[x]))
            continue
        # statement numbers (or structurally different loops): static order
        if x==y and not isinstance(x,Atom): continue
        if isinstance(x,int) and isinstance(y,int):
            if y>x and not prover.is_unsat(S.facts,band(*(base+eqs))): return True
            return False
        # unknown relation: any overlap counts
        return not prover.is_unsat(S.facts,band(*(base+eqs)))
    return False

def unique(S,t,cand,A,size):
    """no instance of t with other index values touches A"""
    r,m=t.rename()
    base=r.ranges()+([r.guard] if r.guard is not TRUE else [])+overlap(r,A,size)
    for a,c in t.idx:
        for d in (lt(m[a],cand[a]),lt(cand[a],m[a])):
            if d is not FALSE and not prover.is_unsat(S.facts,band(*(base+[d]))): return False
    return True
def value_at(S,t,cand):
    f=Subst({a:cand[a] for a,_ in t.idx})
    return f(t.val)

RANGE={}
def read(S,region,node,A,size):
    """value of the `size`-byte element at byte offset A (same size/alignment as the stored elements)"""
    STAT["reads"]+=1
    while True:
        if node is INIT: return init_read(S,region,A,size)
        if isinstance(node,Prefix):
            LPREAD.add((node.loop,region))
            n=lp(node.loop,region,A,size)
            return n if size in(1,2) else b2i(n)
        if node.kind=="add": return read_add(S,region,node,A,size)
        if node.kind=="range":
            ts=[t for t in node.ts if writes_conflict(S,t,A,size) is not None]
            if not ts: node=node.prev; continue
            k=(id(node),A,size)
            if k not in RANGE:
                lo,hi=term.interval(read(S,region,node.prev,A,size))
                for t in ts: lo=None if lo is None else min(lo,t.box[0].cval()); hi=None if hi is None else max(hi,t.box[1].cval())
                RANGE[k]=(var("upd",lo,hi,fresh=True),node)
            return S.sub(RANGE[k][0])
        if node.kind=="havoc": raise Unsupported("read of havocked memory")
        hits=[]; skipped=None
        for i in range(len(node.ts)-1,-1,-1):
            t=node.ts[i]
            cand=match(S,t,A,size)
            if cand is None: continue
            # later writers?
            g=Subst({a:cand[a] for a,_ in t.idx})(t.guard) if t.guard is not TRUE else TRUE
            g=S.simp(g)
            if g is FALSE: continue
            bad=[u for u in node.ts if later_conflict(S,u,t.key,cand,A,size,g)]
            if bad:
                # a guarded later writer is handled when it was matched first
                if all(any(u is h[0] and unique(S,u,h[1],A,size) for h in hits) for u in bad): pass
                elif same_value(S,node,A,size,t,cand): pass
                elif not hits: skipped=skipped or (t,cand,bad[0]); continue     # look for the later writer
                else: raise Unsupported(f"ambiguous write to {region} at {A}: {bad[0]}")
            if g is not TRUE and t.idx and not unique(S,t,cand,A,size): raise Unsupported("guarded non-unique write")
            if skipped and g is not TRUE: break
            hits.append((t,cand,g))
            if g is TRUE: break
        # a writer that may be overwritten was passed over: only an unconditional last writer settles the value
        if skipped and not(len(hits)==1 and hits[0][2] is TRUE): raise Unsupported(f"ambiguous write to {region} at {A}: {skipped[2]}")
        if not hits: node=node.prev; continue
        if hits[-1][2] is TRUE: r=value_at(S,hits[-1][0],hits[-1][1]); hs=hits[:-1]
        else: r=read(S,region,node.prev,A,size); hs=hits
        for t,cand,g in reversed(hs): r=ite(g,value_at(S,t,cand),r)
        return r
def same_value(S,node,A,size,t,cand):
    """all writers of A store one and the same value"""
    v=value_at(S,t,cand)
    for u in node.ts:
        if fa(u.val)&set(a for a,_ in u.idx) or u.val is not v: return False
    return True
def match(S,t,A,size):
    """index assignment (atom->Poly) of the instance writing A; None when provably nothing writes A; may raise NeedFork"""
    if not t.idx:
        d=t.off-A
        if d.isconst() and t.size==size:
            if d.cval()==0: return {}
            if abs(d.cval())>=size: return None
        e=eq0(d)
        if S.proves(e): return {}
        if S.proves(bnot(e)): return None
        raise NeedFork(e)
    atoms=[a for a,_ in t.idx]
    sol=solve(t.off,atoms,A)
    cond=None
    if sol is not None:
        cand,rem=sol
        cs=[]
        for a,c in t.idx:
            f=Subst({b:cand[b] for b in atoms})
            cs.append(ge0(cand[a])); cs.append(lt(cand[a],f(c)))
        cs.append(eq0(rem))
        cond=band(*cs)
        if S.proves(cond): return cand
    if writes_conflict(S,t,A,size) is None: return None
    if sol is None: raise Unsupported(f"cannot solve write address {t.off} = {A}")
    # undecided: split on the first unproved condition
    for c in cs:
        if c is FALSE: continue
        if not S.proves(c):
            if S.proves(bnot(c)):
                continue
            raise NeedFork(c)
    raise Unsupported(f"undetermined write {t} at {A}")

def read_add(S,region,node,A,size):
    base=read(S,region,node.prev,A,size)
    tot=base
    for t in node.ts:
        tot=tot+add_contrib(S,t,A)
    return tot
def add_contrib(S,t,A):
    """sum over the indices of t of [off==A]*val"""
    t,_=t.rename()
    idx=list(t.idx); off=t.off; val=t.val if isinstance(t.val,Poly) else b2i(t.val); guard=t.guard
    L=linear(off,[a for a,_ in idx])
    fixed={}
    if L is not None:
        o0,co=L
        used=[(a,c) for a,c in idx if co[a].d]; 
        sol=solve(off,[a for a,_ in used],A) if used else ({},A-o0)
        if sol is not None:
            cand,rem=sol
            cs=[eq0(rem)]
            for a,c in used:
                cc=Subst(cand)(c)
                cs+= [ge0(cand[a]),lt(cand[a],cc)]
            cond=band(*cs)
            if S.proves(cond):
                # uniqueness of the address solution
                u=T(used,off,t.size,val)
                if used and not unique(S,u,cand,A,t.size):
                    import os
                    if os.environ.get("PVC_DBG"): print("AMB",u,cand,A,S.facts)
                    raise Unsupported("ambiguous accumulation address")
                f=Subst(cand); val=f(val); guard=f(guard)
                idx=[(a,f(c)) for a,c in idx if a not in cand]
                if guard is not TRUE: val=iteP(guard,val,ZERO)
                for a,c in reversed(idx): val=sum_(a,c,val)
                return val
            if writes_conflict(S,T(used,off,t.size,val),A,t.size) is None: return ZERO
            for c in cs:
                if not S.proves(c):
                    if S.proves(bnot(c)): continue
                    raise NeedFork(c)
    # data dependent address
    ind=band(guard,eq0(off-A))
    body=iteP(ind,val,ZERO)
    for a,c in reversed(idx): body=sum_(a,c,body)
    return body

def init_read(S,region,A,size):
    if region.snapshot is not None:
        r0,n0=region.snapshot
        return read(S,r0,n0,A,size)
    if region.fill is not None: return region.fill(A,size)
    if size in(1,2): return rd(region,A,size)
    return rdp(region,A,size)
