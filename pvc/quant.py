"""Bounded-quantifier facts: instantiation at the addresses a goal reads, and witnesses."""
from term import *
import term, mem
from mem import T, NeedFork, Unsupported
def count_body(p):
    """p as a nested sum of an indicator: (indices, condition)"""
    idx=[]
    while True:
        a=atom_of(p)
        if a is None: return None
        if a.kind=="sum":
            k,n,body=a.args; b=atom_of(var("k",0,None,fresh=True,kind="idx")); f=Subst({atom_of(k):Poly.of(b)})
            idx.append((b,n)); p=f(body); continue
        if a.kind=="b2i" or a.kind!="ite": return None
        c,x,y=a.args
        if x is ZERO and y is ONE: return idx,bnot(c)
        return (idx,c) if x is ONE and y is ZERO else None
def range_facts(idx): return [x for a,c in idx for x in (ge0(Poly.of(a)),lt(Poly.of(a),c)) if x is not TRUE]
def instances(C,idx,off,A,size):
    """index values for which an address pattern equals A"""
    out=[]
    try:
        m=mem.match(C,T(idx,off,size,ZERO),A,size)
        if m is not None: out.append(m)
    except (NeedFork,Unsupported): pass
    L=mem.linear(off,[a for a,_ in idx])
    if L is not None and len(idx)==2:
        o0,co=L
        (a,n),(b,m)=idx
        if co[b].isconst() and co[b].cval()==size and co[a].d and C.proves(ge0(co[a]-1)):
            k=fdiv(A-o0,co[a]); c={a:k,b:fdiv(A-o0-k*co[a],size)}
            f=Subst(c)
            if all(C.proves(x) for x in (ge0(c[a]),lt(c[a],f(n)),ge0(c[b]),lt(c[b],f(m)),eq(f(off),A))): out.append(c)
    return out
def never(C,idx,c):
    """the condition fails at every index"""
    A=C.copy(); A.depth+=1; A.facts+=range_facts(idx)
    if A.proves(bnot(c)): return True
    for fi,g in C.tag.get("forall",[]):
        for x in collect(g,lambda n:n.op=="rd"):
            for y in collect(c,lambda n:n.op=="rd"):
                if x.args[0] is not y.args[0] or x.w!=y.w: continue
                for m in instances(A,fi,x.args[1],y.args[1],x.w//8):
                    h=norm_reads(A,Subst(m)(g),c)
                    if h not in A.facts: A.facts.append(h)
                    if A.proves(bnot(c)): return True
    return False
def witness(C,idx,c):
    """the condition holds at some index"""
    for f in C.facts:
        for x in collect(f,lambda n:n.op=="rd"):
            for y in collect(c,lambda n:n.op=="rd"):
                if x.args[0] is not y.args[0] or x.w!=y.w: continue
                for m in instances(C,idx,y.args[1],x.args[1],x.w//8):
                    h=norm_reads(C,Subst(m)(c),f)
                    if C.proves(h): return True
    return False
def norm_reads(C,x,y):
    """make equal read addresses syntactically equal"""
    for _ in range(3):
        n1=collect(x,lambda n:n.op=="rd"); n2=collect(y,lambda n:n.op=="rd")
        sub={}
        for a in n1:
            if a in n2: continue
            for b in n2:
                if a.args[0] is b.args[0] and a.w==b.w and C.proves(eq(a.args[1],b.args[1])): sub[a]=b; break
        if not sub: return x
        x=Subst({},sub)(x)
    return x
def rds(x): return collect(x,lambda n:n.op=="rd")
def instantiate(C,goal,foralls):
    """instances of the path's quantified facts at the elements the goal reads"""
    out=[]; ys=rds(goal)
    if not ys: return out
    A=C.copy(); A.tag={}
    for fi,g in foralls:
        for x in rds(g):
            for y in ys:
                if x.args[0] is not y.args[0] or x.w!=y.w: continue
                for m in instances(A,fi,x.args[1],y.args[1],x.w//8):
                    h=norm_reads(A,Subst(m)(g),goal)
                    if h not in out and h not in C.facts and h is not TRUE: out.append(h)
    return out
def holds(C,c):
    """prove a condition of a contract; indicator sums are read as quantifiers"""
    if C.proves(c): return True
    neg,q=(True,c.args[0]) if c.op=="not" else (False,c)
    if q.op=="eq0":
        cb=count_body(q.args[0])
        if cb is not None: return witness(C,*cb) if neg else never(C,*cb)
    return False
def refuted(C,cs):
    """the facts contradict one of the conditions"""
    return any(holds(C,bnot(x)) for x in cs if x.op=="eq0" and count_body(x.args[0]) is not None)

def deep_atoms(x,kind,acc=None,seen=None):
    """all integer atoms of one kind, also inside addresses and conditions"""
    if acc is None: acc=[]; seen=set()
    if isinstance(x,Poly):
        for a in x.atoms():
            if a.id in seen: continue
            seen.add(a.id)
            if a.kind==kind: acc.append(a)
            for y in a.args:
                if isinstance(y,(Poly,Node)): deep_atoms(y,kind,acc,seen)
    elif isinstance(x,Node):
        if ("n",x.id) in seen: return acc
        seen.add(("n",x.id))
        for y in x.args:
            if isinstance(y,(Poly,Node)): deep_atoms(y,kind,acc,seen)
    return acc
def norm_divs(C,x):
    """n div d = q where n = q*d + r and 0 <= r < d follows from the facts"""
    for _ in range(3):
        m={}
        for a in deep_atoms(x,"div"):
            n,d=a.args
            if d.isconst(): continue
            z=term.divmod_poly(n,d)
            if z is not None and z[0].d and C.proves(band(ge0(z[1]),lt(z[1],d))): m[a]=z[0]
        if not m: return x
        x=Subst(m)(x)
    return x
