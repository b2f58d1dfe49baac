"""C01: NaN and infinite operands."""
from oc import *
from report import Report
RULE=("Abstract interpretation of every BigFloat method that takes BigFloat operands, once per combination of operand classes (NaN, +Inf, -Inf, +0, -0, positive, negative; "
 "bases of pow and log also by their relation to one, exponents of pow by parity) with at least one NaN or infinite operand, for all precisions, modes and remaining state. "
 "The set of possible outcomes must equal the entry of a table of limits; a finite outcome may additionally fail with NaN carrying an allocation or argument error.")
SP=("NaN","+Inf","-Inf")
NAN="NaN"
U={"abs":("+Inf","+Inf"),"int":(NAN,NAN),"fract":(NAN,NAN),"ceil":("+Inf","-Inf"),"floor":("+Inf","-Inf"),"round":("+Inf","-Inf"),
 "sqrt":("+Inf",NAN),"cbrt":("+Inf","-Inf"),"reciprocal":("+0","-0"),"exp":("+Inf","+0"),"ln":("+Inf",NAN),"log2":("+Inf",NAN),"log10":("+Inf",NAN),
 "sin":(NAN,NAN),"cos":(NAN,NAN),"tan":(NAN,NAN),"asin":(NAN,NAN),"acos":(NAN,NAN),"atan":("+v","-v"),"sinh":("+Inf","-Inf"),"cosh":("+Inf","+Inf"),
 "tanh":("+1","-1"),"asinh":("+Inf","-Inf"),"acosh":("+Inf",NAN),"atanh":(NAN,NAN),"neg":("-Inf","+Inf"),"signum":("+1","-1")}
def sg(l): return -1 if l[0]=="-" or l.startswith("neg") else 1
def zero(l): return l in("+0","-0")
def inf(l): return l in("+Inf","-Inf")
def I_(s): return "+Inf" if s>0 else "-Inf"
def Z_(s): return "+0" if s>0 else "-0"
def b_add(a,b):
    if inf(a) and inf(b): return a if a==b else NAN
    return a if inf(a) else b
def b_sub(a,b): return b_add(a,"-"+b[1:] if b[0]=="+" else "+"+b[1:]) if inf(b) else a
def b_mul(a,b): return NAN if zero(a) or zero(b) else I_(sg(a)*sg(b))
def b_div(a,b):
    if inf(a): return NAN if inf(b) else I_(sg(a)*sg(b))
    return Z_(sg(a)*sg(b))
def b_rem(a,b): return NAN if inf(a) else a   # finite dividend: unchanged
def b_pow(a,b):
    if inf(b):
        if inf(a): return "+Inf" if b=="+Inf" else "0"
        return b if a=="pos>1" else "+1" if a=="pos=1" else "0"
    if zero(b): return "+1"
    if b.startswith("pos"): return "-Inf" if a=="-Inf" and b=="pos odd" else "+Inf"
    return "0"
def b_log(a,b):
    if a=="-Inf" or a=="neg" or b=="neg" or b=="-Inf": return NAN
    if zero(b): return NAN
    if inf(a): return NAN if inf(b) else "+Inf" if b=="pos>=1" else "-Inf"
    return NAN if zero(a) else "0"
B={"add":b_add,"sub":b_sub,"add_full_prec":b_add,"sub_full_prec":b_sub,"mul":b_mul,"mul_full_prec":b_mul,"div":b_div,"rem":b_rem,"pow":b_pow,"log":b_log}
KINDS={"pow":{"a":"one","b":"odd"},"log":{"b":"e"}}
def expect(e,labs):
    """table entry -> accepted outcome"""
    return e
def match(t,e):
    if e==NAN: return t.startswith("NaN") and not re.match(r"NaN:[a-h]\Z",t)
    if e=="0": return t in("+0","-0")
    if e in("pos","neg"): return t in((sg(e)>0 and "+" or "-")+c for c in "v1")
    if e in("+v","-v"): return t in(e,e[0]+"1")
    return t==e
def check(rep,P,name,path,labs,I,outs,err,e):
    lab="%s(%s)"%(name,", ".join(labs))
    if err: rep.undecided("%s: %s"%(lab,err)); return
    got=set()
    for x,v in outs: got|=tok(I,x,v,P)
    if not got: rep.undecided("%s: no outcome"%lab); return
    value=e in("0","+0","-0","+1","-1","+v","-v","pos","neg")
    ex=[t for t in got if not match(t,e) and not(value and t in("NaN:err2","NaN:err3"))]
    if "?" in "".join(ex) : rep.undecided("%s: outcome %s"%(lab,sorted(got))); return
    if ex: rep.bad("%s | %s"%(path,lab),"%s must be %s, but %s is possible"%(lab,e,", ".join(sorted(ex))))
    elif not any(match(t,e) for t in got): rep.bad("%s | %s"%(path,lab),"%s must be %s, but only %s is possible"%(lab,e,", ".join(sorted(got))))
    else: rep.ok("%s = %s"%(lab,e))
def run(tier):
    P=prog(); rep=Report("C01",RULE); cnt=0
    for n,(pv,nv) in U.items():
        fn=extfn(P,n)
        if not fn: rep.bad("missing %s"%n,"BigFloat::%s not found"%n); continue
        rep.unit(fn["path"]); cnt+=1
        for labs,I,outs,err in runs(P,fn,skip=lambda l:l[0] not in SP):
            e={"NaN":"NaN:a","+Inf":pv,"-Inf":nv}[labs[0]]
            check(rep,P,n,fn["path"],labs,I,outs,err,e); rep.fns|=I.stats["fns"]
    fn=extfn(P,"powi")
    for labs,I,outs,err in [] if not fn else powi(P,fn):
        e="NaN:a" if labs[0]=="NaN" else "+1" if labs[1]=="n=0" else "-Inf" if labs[0]=="-Inf" and labs[1]=="odd" else "+Inf"
        check(rep,P,"powi",fn["path"],labs,I,outs,err,e)
    if fn: rep.unit(fn["path"]); cnt+=1
    for n,f in B.items():
        fn=extfn(P,n)
        if not fn: rep.bad("missing %s"%n,"BigFloat::%s not found"%n); continue
        rep.unit(fn["path"]); cnt+=1
        for labs,I,outs,err in runs(P,fn,kinds=KINDS.get(n,{}),skip=lambda l:not(set(l)&set(SP))):
            e="NaN:a" if labs[0]=="NaN" else "NaN:b" if labs[1]=="NaN" else f(*labs)
            check(rep,P,n,fn["path"],labs,I,outs,err,e); rep.fns|=I.stats["fns"]
    rep.count("operations",cnt)
    access(rep,P)
    return rep
def vtok(I,x,v,P,payload=False):
    """outcome of an accessor"""
    v=I.norm(v,x)
    if type(v) is T:
        a,b=x.iv(v); return {str(a)} if a==b else {"?"}
    ty=getattr(v,"ty",None); tp=P.ty[ty].get("path") if ty is not None else None
    if ty==P.tyid("ext::BigFloat"): return tok(I,x,v,P)
    if tp=="std::option::Option":
        if type(v) is A:
            # the payload of the operand, taken apart
            d=x.vals(Sym("a.NaN.0.#",0,1))
            if v.var==0: return {"err:NaN:a"} if payload and d==frozenset((0,)) or payload and d=={0} else {"None"}
            w=I.norm(v.f[0],x)
            if payload and str(w).startswith("E(a.NaN.0"): return {"err:NaN:a"}
            if getattr(w,"ty",None)==I.tsign: return {"Some(%s)"%t for t in signs(I,x,w)}
            return {"Some"}
        t=nantok(I,x,v)
        return {"err:"+y for y in (t if type(t) is set else [t])}
    if tp=="std::num::FpCategory" and type(v) is A: return {P.ty[v.ty]["variants"][v.var]["n"]}
    if type(v) is A and tp=="std::result::Result": return {"Ok" if v.var==0 else "Err"}
    return {"?"}
# NaN, +Inf, -Inf
ACC={"is_nan":"1 0 0","is_inf":"0 1 1","is_inf_pos":"0 1 0","is_inf_neg":"0 0 1","is_zero":"0 0 0","is_positive":"0 1 0","is_negative":"0 0 1","is_subnormal":"0 0 0",
 "is_int":"0 0 0","sign":"None Some(+) Some(-)","exponent":"None None None","precision":"None None None","mantissa_max_bit_len":"None None None",
 "mantissa_digits":"None None None","as_raw_parts":"None None None","classify":"Nan Infinite Infinite","err":"err:NaN:a None None"}
# operand afterwards
MUT={"inv_sign":("NaN:a","-Inf","+Inf"),"set_exponent":("NaN:a","+Inf","-Inf"),"set_inexact":("NaN:a","+Inf","-Inf"),"set_precision":("NaN:a","+Inf","-Inf")}
def access(rep,P):
    k=0
    for n,exp in ACC.items():
        fn=extfn(P,n)
        if not fn: rep.bad("missing %s"%n,"BigFloat::%s not found"%n); continue
        rep.unit(fn["path"]); k+=1
        for labs,I,outs,err in runs(P,fn,skip=lambda l:l[0] not in SP):
            if err: rep.undecided("%s: %s"%(fn["path"],err)); continue
            got=set()
            for x,v in outs: got|=vtok(I,x,v,P,n=="err" and labs[0]=="NaN")
            e=exp.split()[SP.index(labs[0])]
            if "?" in got: rep.undecided("%s(%s): outcome not identified"%(n,labs[0]))
            elif got=={e}: rep.ok("%s(%s) = %s"%(n,labs[0],e))
            else: rep.bad("%s | %s"%(fn["path"],labs[0]),"%s(%s) must be %s, but %s is possible"%(n,labs[0],e,", ".join(sorted(got))))
    for n,exp in MUT.items():
        fn=extfn(P,n)
        if not fn: rep.bad("missing %s"%n,"BigFloat::%s not found"%n); continue
        rep.unit(fn["path"]); k+=1
        for labs,I,outs,err in runs(P,fn,skip=lambda l:l[0] not in SP):
            if err: rep.undecided("%s: %s"%(fn["path"],err)); continue
            got=set()
            for x,v in outs: got|=tok(I,x,x.mem[("H","a")],P)
            e=exp[SP.index(labs[0])]
            if "?" in got: rep.undecided("%s(%s): operand not identified"%(n,labs[0]))
            elif got=={e}: rep.ok("%s(%s) leaves %s"%(n,labs[0],e))
            else: rep.bad("%s | %s"%(fn["path"],labs[0]),"%s(%s) must leave %s, but %s is possible"%(n,labs[0],e,", ".join(sorted(got))))
    for fn in P.bypath.get("<ext::BigFloat as std::clone::Clone>::clone",[])[:1]:
        rep.unit(fn["path"]); k+=1
        for labs,I,outs,err in runs(P,fn,skip=lambda l:l[0] not in SP): check(rep,P,"clone",fn["path"],labs,I,outs,err,{"NaN":"NaN:a"}.get(labs[0],labs[0]))
    for fn in P.bypath.get("<ext::BigFloat as std::ops::Neg>::neg",[]) + P.bypath.get("<&ext::BigFloat as std::ops::Neg>::neg",[]):
        rep.unit(fn["path"]); k+=1
        for labs,I,outs,err in runs(P,fn,skip=lambda l:l[0] not in SP): check(rep,P,"-",fn["path"],labs,I,outs,err,{"NaN":"NaN:a","+Inf":"-Inf","-Inf":"+Inf"}[labs[0]])
    rep.count("accessors",k)
def powi(P,fn):
    def extra(args):
        n=args[1]
        return [("n=0",[(eq(n,K(0)),True)]),("odd",[(eq(n,K(0)),False),(eq(rem(n,K(2)),K(1)),True)]),("even",[(eq(n,K(0)),False),(eq(rem(n,K(2)),K(0)),True)])]
    for labs,I,outs,err in runs(P,fn,skip=lambda l:l[0] not in SP,extra=extra): yield labs,I,outs,err
