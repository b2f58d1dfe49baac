"""Roots of an analysis: symbolic operands, classification of outcomes."""
import itertools
import facts
from contracts import *
_prog={}
def prog():
    if "num" not in _prog: _prog["num"]=Program(facts.num())
    return _prog["num"]
def find(P,path):
    for p in ([path] if not path.startswith("~") else []):
        if p in P.bypath: return P.bypath[p][0]
    n=path.lstrip("~")
    for q in P.bypath:
        if q=="num::BigFloatNumber::"+n or q.endswith("<impl num::BigFloatNumber>::"+n): return P.bypath[q][0]
    return None
def numfn(P,n): return find(P,"~"+n)
def extfn(P,n):
    for q in P.bypath:
        if q=="ext::BigFloat::"+n or q.endswith("<impl ext::BigFloat>::"+n): return P.bypath[q][0]
    return None
def symnum(I,nm,**kw):
    """a number with every component symbolic"""
    o=dict(e=Sym(nm+".e",EMIN,EMAX),s=E(I.tsign,Sym(nm+".s.#",0,1),nm+".s"),ln=Sym(nm+".len",0,LENMAX),n=Sym(nm+".n",0,BLMAX),inx=Sym(nm+".inx",0,1),meta=(("ex",K(1)),))
    o.update(kw)
    return I.num(o["e"],o["s"],o["ln"],o["n"],o["inx"],o["meta"])
def flavor(I,nm,num):
    """a BigFloat whose flavour is symbolic"""
    P=I.P
    tb=P.tyid("ext::BigFloat"); tf=P.tyid("ext::Flavor")
    vs=[v["n"] for v in P.ty[tf]["variants"]]
    iv=vs.index("Value"); ii=vs.index("Inf")
    pay=((iv,(num,)),(ii,(E(I.tsign,Sym(nm+".inf.#",0,1),nm+".inf"),)))
    return A(tb,0,(E(tf,Sym(nm+".fl.#",0,len(vs)-1),nm,pay),))
def mkargs(I,st,fn,names=None,hook=None):
    """symbolic arguments: numbers and BigFloats behind references get named parts"""
    P=I.P; args=[]
    tnum=I.tnum; tb=P.tyid("ext::BigFloat")
    for i in range(fn["argc"]):
        t=fn["locals"][i+1]; nm=(names or "abcdefgh")[i]
        if hook is not None:
            v=hook(i,nm,t,st)
            if v is not None: args.append(v); continue
        v=I.fresh(t,nm,None)
        if type(v) is L: v=I.expand(v,st)
        if t==tnum: v=symnum(I,nm)
        elif t==tb: v=flavor(I,nm,symnum(I,nm))
        elif P.ty[t]["k"]=="ref":
            to=P.ty[t]["to"]; loc=("H",nm)
            if P.ty[to]["k"]=="ref" and P.ty[to]["to"]==tb:
                st.mem[("H",nm+"2")]=flavor(I,nm,symnum(I,nm)); st.mem[loc]=R(("H",nm+"2"),(),False); v=R(loc,(),False)
            elif to==tnum: st.mem[loc]=symnum(I,nm); v=R(loc,(),P.ty[t]["mut"])
            elif to==tb: st.mem[loc]=flavor(I,nm,symnum(I,nm)); v=R(loc,(),P.ty[t]["mut"])
        args.append(v)
    return args
def consistent(st,nm,norm=False):
    """facts that hold for every well-formed number: bit length at most the mantissa's size"""
    ln=Sym(nm+".len",0,LENMAX); n=Sym(nm+".n",0,BLMAX)
    return st.refine(le(n,scale(ln,WORD)),True)
def splits(st,conds):
    """conds: list of lists of (label, [(term,bool)...]); yields (labels, state) for every feasible combination"""
    if not conds: yield (),st; return
    for lab,cs in conds[0]:
        x=st.copy(); good=True
        for t,v in cs:
            if not x.refine(t,v): good=False;break
        if not good or not x.settle(): continue
        for labs,y in splits(x,conds[1:]): yield (lab,)+labs,y
def decode_opt(I,x,v):
    """None / value of an Option"""
    v=I.norm(v,x)
    if type(v) is A: return (True,v.f[0]) if v.var==1 else (True,None)
    return (False,None)
def signof(st,t):
    if type(t) is not T: return "?"
    lo,hi=st.iv(t)
    if lo>0: return "+"
    if hi<0: return "-"
    if lo==hi==0: return "0"
    return "?"
def desc(st,terms):
    return ", ".join("%s∈[%s,%s]"%(n,*st.iv(t)) for n,t in terms)
