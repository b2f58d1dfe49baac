"""Analysis of the operations on numbers: one run per operation with symbolic operands, precision and rounding mode."""
from roots import *
UN=["sqrt","cbrt","reciprocal"]
UNC=["exp","ln","log2","log10","sin","cos","tan","asin","acos","atan","sinh","cosh","tanh","asinh","acosh","atanh"]
BIN=["add","sub","mul","div"]; BINC=["log","pow"]
POW=["powi","powsi"]
FULL=["add_full_prec","sub_full_prec","mul_full_prec"]
class Run: pass
def pargs(P,fn):
    """indices (0-based) of the precision and rounding-mode arguments: the rounding mode by type, the precision before it"""
    trm=P.tyid("defs::RoundingMode")
    rmi=[i for i in range(fn["argc"]) if fn["locals"][i+1]==trm]
    rm=rmi[0] if rmi else None
    pi=None
    if rm is not None:
        for i in range(rm-1,-1,-1):
            if P.tys(fn["locals"][i+1])=="usize": pi=i;break
    return pi,rm
def run_op(P,fn,inx=None,ext=False,pre=None,pdom="ok",over=(),budget=3000000,cls=CI,assume=None,keys=(),hook=None):
    """inx: {operand: TRUE/FALSE} fixes the inexact flag of operands"""
    I=cls(P,root=fn["id"],over=over,ext=ext); I.budget=budget
    st=State(); r=Run(); r.I=I; r.fn=fn
    pi,rmi=pargs(P,fn)
    r.p=Sym("p",0,(1<<64)-1); r.rm=E(I.trm,Sym("rm.#",0,6),"rm")
    def hk(i,nm,t,st):
        if hook is not None:
            v=hook(I,i,nm,t,st)
            if v is not None: return v
        if i==pi: return r.p
        if i==rmi: return r.rm
        return None
    r.args=mkargs(I,st,fn,hook=hk)
    r.nums=[n for n in "abcd" if ("H",n) in st.mem and getattr(st.mem[("H",n)],"ty",None) in (I.tnum,P.tyid("ext::BigFloat"))]
    for n in r.nums: consistent(st,n)
    for n,t in (inx or {}).items(): st.refine(Sym(n+".inx",0,1),t)
    I.pinned=set("abcdefgh"[:fn["argc"]])|{"p","rm"}
    I.keyterms=keys
    sts=[st]
    if pi is not None and pdom!="any":
        sts=[]
        st.refine(le(K(1),r.p),True)
        for x,v in I.run(I.limit_fid,[r.p],st,1,"gate"):
            v=I.norm(v,x)
            if type(v) is A and ((v.var==0)==(pdom=="ok")): sts.append(x)
    r.out=[];r.err=None
    try:
        for x in sts:
            if pre is not None and not pre(I,x): continue
            r.out+=I.run(fn["id"],list(r.args),x)
    except Abort as e: r.err=str(e)
    except (KeyError,IndexError,AttributeError,TypeError,ValueError,RecursionError) as e: r.err="not analysable: %s %s"%(type(e).__name__,e)
    r.P=P
    return r
def results(r):
    """yields (state, 'ok', NumView) / (state,'err',variant or None,payload)"""
    I=r.I
    for x,v in r.out:
        v=I.norm(v,x)
        if type(v) is A and v.ty is not None and r.P.ty[v.ty].get("path")=="std::result::Result":
            if v.var==0:
                if v.f and getattr(v.f[0],"ty",None)==I.tnum: yield x,"ok",NumView(I,x,v.f[0]),None
                else: yield x,"okother",v.f[0] if v.f else None,None
            else:
                e=I.norm(v.f[0],x)
                yield x,"err",(e.var if type(e) is A else None),e
        elif getattr(v,"ty",None)==I.tnum: yield x,"ok",NumView(I,x,v),None
        else: yield x,"?",v,None

MISC=["rem","int","fract","ceil","floor","round","abs","neg"]
def operands(P,fn):
    """names of the operands that are numbers"""
    return [("abcdefgh"[i]) for i in range(fn["argc"]) if P.tys(fn["locals"][i+1]) in("&num::BigFloatNumber","num::BigFloatNumber","&mut num::BigFloatNumber")]
def boolacc(P):
    """mantissa operations that accumulate inexactness in a `&mut bool`: (function, index of that parameter)"""
    r=[]
    for fid,f in P.fns.items():
        if not f["local"] or not f["path"].startswith("mantissa::"): continue
        ix=[i for i in range(f["argc"]) if P.tys(f["locals"][i+1])=="&mut bool"]
        if not ix: continue
        if len(ix)==1 or f["path"].endswith("::round_mantissa"): r.append((f,ix[-1]))
    return r
# ------------------------------------------------------------ BigFloat level
def classes(I,nm,fine=True):
    """classes of a BigFloat operand: (label, conditions)"""
    P=I.P
    tf=P.tyid("ext::Flavor"); vs=[v["n"] for v in P.ty[tf]["variants"]]
    f=Sym(nm+".fl.#",0,len(vs)-1); s=Sym(nm+".inf.#",0,1); V=(eq(f,K(vs.index("Value"))),True)
    n=Sym(nm+".n",0,BLMAX); sg=Sym(nm+".s.#",0,1)
    r=[("NaN",[(eq(f,K(vs.index("NaN"))),True)]),("+Inf",[(eq(f,K(vs.index("Inf"))),True),(s,True)]),("-Inf",[(eq(f,K(vs.index("Inf"))),True),(s,False)])]
    if not fine: return r+[("num",[V])]
    return r+[("+0",[V,(eq(n,K(0)),True),(sg,True)]),("-0",[V,(eq(n,K(0)),True),(sg,False)]),
              ("pos",[V,(eq(n,K(0)),False),(sg,True)]),("neg",[V,(eq(n,K(0)),False),(sg,False)])]
def numclasses(I,nm):
    n=Sym(nm+".n",0,BLMAX); sg=Sym(nm+".s.#",0,1)
    return [("+0",[(eq(n,K(0)),True),(sg,True)]),("-0",[(eq(n,K(0)),True),(sg,False)]),("pos",[(eq(n,K(0)),False),(sg,True)]),("neg",[(eq(n,K(0)),False),(sg,False)])]
def extops(P,fn):
    return ["abcdefgh"[i] for i in range(fn["argc"]) if P.tys(fn["locals"][i+1]) in("&ext::BigFloat","ext::BigFloat","&mut ext::BigFloat")]
def flav(I,x,v):
    """('Value',NumView) / ('NaN',Option value) / ('Inf',sign value) / None of a BigFloat value"""
    v=I.norm(v,x)
    if type(v) is not A: return None
    f=I.norm(v.f[0],x)
    if type(f) is not A: return None
    nm=I.P.ty[f.ty]["variants"][f.var]["n"]
    if nm=="Value":
        if getattr(f.f[0],"ty",None)!=I.tnum: return None
        return nm,NumView(I,x,f.f[0])
    return nm,I.norm(f.f[0],x)
def flavs(I,x,v):
    """flav, splitting on an undetermined flavour"""
    v=I.norm(v,x)
    if type(v) is not A: return
    f=v.f[0]
    if type(f) is L: f=I.expand(f,x)
    if type(f) is E:
        for i in sorted(x.vals(f.sym) or range(len(I.P.ty[f.ty]["variants"]))):
            y=x.copy()
            if y.refine(eq(f.sym,K(i)),True) and y.settle():
                r=flav(I,y,A(v.ty,0,(f,)))
                yield (y,)+r if r else (y,"?",f)
        return
    r=flav(I,x,v)
    yield (x,)+r if r else (x,"?",f)
def signs(I,x,sv):
    """possible signs of a Sign value: subset of {'+','-'}"""
    sv=I.norm(sv,x)
    if type(sv) is A: return {"-+"[sv.var]}
    if type(sv) is E:
        d=x.vals(sv.sym)
        return {"-+"[i] for i in (d if d is not None else (0,1))}
    return {"-","+"}
