"""Exact identities on finite sums, used when two sums are compared.
   regroup:  sum_k<n f(m*k) + ... + sum_k<n f(m*k+m-1)  =  sum_i<m*n f(i)
   append:   sum_i<a f(i) + sum_i<b f(a+i)              =  sum_i<a+b f(i)     (a,b >= 0)
   rows:     sum_k<n f(k) + sum_k<n g(k)                =  sum_k<n f(k)+g(k)
   count:    sum_i<a f(i) = sum_i<b f(i) when the counts are equal on this path"""
from term import *
import exec as X
def opened(a):
    """(count, fresh index, body) of a sum atom"""
    bp,cnt,body=a.args
    f=var("k",0,fresh=True,kind="idx"); return cnt,atom_of(f),Subst({atom_of(bp):f})(body)
def first_read(p,seen=None):
    """offset of the first memory read in a body, to order the terms"""
    best=None
    def walk(x):
        nonlocal best
        if best is not None: return
        if isinstance(x,Poly):
            for a in x.atoms(): walk(a)
        elif isinstance(x,Node):
            if x.op in("rd","lp"):
                for y in x.args:
                    if isinstance(y,Poly): best=y; return
            for y in x.args: walk(y)
        elif hasattr(x,"args"):
            if x.kind=="rdp":
                for y in x.args:
                    if isinstance(y,Poly): best=y; return
            for y in x.args: walk(y)
    walk(p); return best
def cpart(p): return p.d.get((),0)
def tidy(S,p,depth=0):
    """normal form of an integer term with respect to the identities above"""
    sums={}; rest={}
    for m,c in p.d.items():
        if len(m)==1 and m[0].kind=="sum": sums.setdefault((c,m[0].args[1]),[]).append(m[0])
        else: rest[m]=c
    out=Poly.mk(rest)
    lst=[]      # (coef, count, index, body)
    for (c,cnt),ats in sums.items():
        k=var("k",0,fresh=True,kind="idx"); ka=atom_of(k); bodies=[]
        for a in ats:
            _,f,b=opened(a); bodies.append(Subst({f:k})(b))
        flat=[]
        for b in bodies:
            for m,cc in b.d.items(): flat.append((m,cc))
        if all(len(m)==1 and m[0].kind=="sum" for m,cc in flat) and depth<3:
            tot=ZERO
            for b in bodies: tot=tot+b
            lst.append((c,cnt,ka,tidy(S,tot,depth+1))); continue
        # single terms
        parts={}
        for m,cc in flat: parts.setdefault(cc,[]).append(Poly.mk({m:1}))
        for cc,ps in parts.items():
            for cn2,ka2,b2 in regroup(cnt,ka,ps): lst.append((c*cc,cn2,ka2,b2))
    lst=append(S,lst)
    for c,cnt,ka,b in lst: out=out+sum_(ka,cnt,b)*c
    return out
def regroup(cnt,ka,ps):
    """merge interleaved sequences"""
    k=Poly.of(ka)
    key=lambda p:(lambda o:(0,0) if o is None else (1,cpart(o)))(first_read(p))
    ps=sorted(ps,key=key); out=[]
    while ps:
        n=len(ps); done=False
        for m in range(n,1,-1):
            g=X.uniform(ps[:m])
            if g is None: continue
            l,G=g
            if Subst({l:Poly.of(l)+m})(G) is Subst({ka:k+1})(G):
                i=var("k",0,fresh=True,kind="idx")
                out.append((cnt*m,atom_of(i),Subst({ka:ZERO,l:i})(G))); ps=ps[m:]; done=True; break
        if not done: out.append((cnt,ka,ps[0])); ps=ps[1:]
    return out
def append(S,lst):
    lst=list(lst); again=True
    while again:
        again=False
        for x in range(len(lst)):
            for y in range(len(lst)):
                if x==y: continue
                c1,a,k1,f=lst[x]; c2,b,k2,g=lst[y]
                if c1!=c2: continue
                if Subst({k1:Poly.of(k1)+a})(f) is Subst({k2:Poly.of(k1)})(g) and S.proves(ge0(a)) and S.proves(ge0(b)):
                    lst=[z for i,z in enumerate(lst) if i not in(x,y)]+[(c1,a+b,k1,f)]; again=True; break
            if again: break
    return lst
def merge_rows(S,p):
    """sum_k<n sum_c<m f(W*k+c) = sum_i<n*W f(i) when m equals W on this path"""
    out=p
    for m,c in p.d.items():
        if len(m)!=1 or m[0].kind!="sum": continue
        n,k,b=opened(m[0]); ba=atom_of(b)
        if ba is None or ba.kind!="sum": continue
        n2,k2,f=opened(ba); off=first_read(f)
        if off is None: continue
        W=Subst({k:Poly.of(k)+1})(off)-off; step=Subst({k2:Poly.of(k2)+1})(off)-off
        if not step.isconst() or not step.cval(): continue
        if step.cval()!=1: W=divexact(W,step)
        if W is None or W is n2 or k in fa(W) or k2 in fa(W): continue
        if S.proves(eq(n2,W)): out=out-Poly.of(m[0])*c+sum_(k,n,sum_(k2,W,f))*c
    return out
def cancel(S,p):
    """cancel sums of the same terms whose counts are equal on this path (recursively for rows)"""
    p=merge_rows(S,tidy(S,p))
    pos=[(m[0],c) for m,c in p.d.items() if len(m)==1 and m[0].kind=="sum"]
    for i,(a,c) in enumerate(pos):
        for b,e in pos[i+1:]:
            if c!=-e: continue
            n1,k1,f=opened(a); n2,k2,g=opened(b); g=Subst({k2:Poly.of(k1)})(g)
            if not(n1 is n2 or S.proves(eq(n1,n2))): continue
            if f is g or not cancel(S,f-g).d: return cancel(S,p-Poly.of(a)*c-Poly.of(b)*e)
    return p
