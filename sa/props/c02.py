"""C02: failures and poles."""
from oc import *
from report import Report
RULE=("Abstract interpretation of every BigFloat operation together with the body of the number-level operation behind it, once per combination of finite operand classes "
 "(+0, -0, positive, negative; also by relation of the magnitude to one for asin, acos, acosh, atanh and by parity for exponents of pow), for all precisions, modes and remaining state. "
 "Domain violations must give only NaN with the invalid-argument error, poles only the infinity of the right sign, arguments inside the domain must be able to give a number, "
 "no NaN without an error may appear, and an overflow of a product, quotient or power must have the sign of the true result. "
 "The conversion of number-level errors to special values is checked for every error.")
K2={"asin":{"a":"abs1"},"acos":{"a":"abs1"},"acosh":{"a":"abs1"},"atanh":{"a":"abs1"},"pow":{"b":"par"}}
UN1=["sqrt","cbrt","reciprocal","exp","ln","log2","log10","sin","cos","tan","asin","acos","atan","sinh","cosh","tanh","asinh","acosh","atanh","abs","int","fract","ceil","floor","round","neg","signum"]
BI=["add","sub","mul","div","rem","pow","log","add_full_prec","sub_full_prec","mul_full_prec"]
INVA="invalid argument"
def sg(l): return -1 if l[0]=="-" or l.startswith("neg") else 1
def zero(l): return l in("+0","-0")
def I_(s): return "+Inf" if s>0 else "-Inf"
def spec(n,l):
    """'invalid argument', an infinity, or ('value', forbidden infinities)"""
    a=l[0]
    if n=="sqrt" and a=="neg": return INVA
    if n in("ln","log2","log10"):
        if zero(a): return "-Inf"
        if a=="neg": return INVA
    if n in("asin","acos") and a.endswith(">1"): return INVA
    if n=="acosh" and not a.startswith("pos") or n=="acosh" and a=="pos<1": return INVA
    if n=="atanh" and a.endswith(">1"): return INVA
    if n=="atanh" and a.endswith("=1"): return I_(sg(a))
    if n=="reciprocal": return I_(sg(a)) if zero(a) else ("value",[I_(-sg(a))])
    if n=="div" and zero(l[1]): return INVA if zero(a) else I_(sg(a)*sg(l[1]))
    if n=="rem" and zero(l[1]): return INVA
    if n=="log" and (a!="pos" or l[1]!="pos"): return INVA
    if n=="pow":
        b=l[1]
        if zero(a) and b.startswith("neg"): return I_(sg(a) if b.endswith("odd") else 1)
        if a=="neg" and b.endswith("frac"): return INVA
        # the quotient 1/u inside pow never has u = 0, which is a matter of digits
        if a=="neg" and b=="pos odd": return("value",["+Inf"])
        if a=="pos" and b.startswith("pos"): return("value",["-Inf"])
        return("value",[])
    if n in("mul","div","mul_full_prec"): return("value",[I_(-sg(a)*sg(l[1]))])
    if n in("add","add_full_prec") and sg(a)==sg(l[1]): return("value",[I_(-sg(a))])
    if n in("sub","sub_full_prec") and sg(a)==-sg(l[1]): return("value",[I_(-sg(a))])
    if n in("sqrt","cbrt","abs","neg","int","fract","signum","atan","sin","cos","asin","acos","tanh"): 
        return("value",["+Inf","-Inf"] if n in("sqrt","cbrt","abs","neg","int","fract","signum") else [])
    if n in("ceil","floor","round"): return("value",[I_(-sg(a))])
    # the sign accumulated by the multiplications of powi follows the digits of the exponent
    if n=="powi" and a=="neg": return("value",[])
    if n=="powi": return("value",[I_(-1 if l[-1]=="odd" and sg(a)<0 else 1)=="+Inf" and "-Inf" or "+Inf"])
    return("value",[])
def judge(rep,n,path,l,got,e):
    lab="%s(%s)"%(n,", ".join(l))
    if not got: rep.undecided("%s: no outcome"%lab); return
    if "?" in got or "NaN:?" in got: rep.undecided("%s: outcome %s"%(lab,sorted(got))); return
    if e==INVA: bad=[t for t in got if t not in("NaN:err2","NaN:err3")]; miss="NaN:err2" not in got; what="NaN with the invalid-argument error"
    elif type(e) is str: bad=[t for t in got if t not in(e,"NaN:err2","NaN:err3")]; miss=e not in got; what=e
    else: bad=[t for t in got if not isval(t) and(t in e[1] or t not in("+Inf","-Inf","NaN:err2","NaN:err3"))]; miss=not any(map(isval,got)); what="a number (or an overflow of the right sign, or NaN with an error)"
    if bad: rep.bad("%s | %s"%(path,lab),"%s must be %s, but %s is possible"%(lab,what,", ".join(sorted(bad))))
    elif miss: rep.bad("%s | %s"%(path,lab),"%s must be %s, but only %s is possible"%(lab,what,", ".join(sorted(got))))
    else: rep.ok("%s: %s"%(lab,what if type(e) is str else "a number"))
def run(tier):
    P=prog(); rep=Report("C02",RULE); cnt=0
    for n in UN1+BI+["powi"]:
        fn=extfn(P,n); nf=numfn(P,n)
        if not fn: rep.bad("missing %s"%n,"BigFloat::%s not found"%n); continue
        rep.unit(fn["path"]); cnt+=1
        for labs,got,err,I in outcomes(P,fn,nf,K2.get(n,{}),extra=powi_extra if n=="powi" else None):
            rep.fns|=I.stats["fns"]
            if err: rep.undecided("%s(%s): %s"%(n,", ".join(labs),err)); continue
            judge(rep,n,fn["path"],labs,got,spec(n,labs))
    rep.count("operations",cnt)
    convert(rep,P); keepsize(rep,P)
    return rep
def keepsize(rep,P):
    """used above: a mantissa rounded with the mode None is never incremented, so it cannot carry into the exponent"""
    fs=[f for q,fs in P.bypath.items() if q.endswith("Mantissa::round_mantissa") for f in fs]
    if not fs: rep.bad("missing round_mantissa","Mantissa::round_mantissa not found"); return
    for fn in fs:
        rep.unit(fn["path"])
        r=run_op(P,fn,pre=lambda I,x:x.refine(eq(Sym("rm.#",0,6),K(0)),True),pdom="any")
        if r.err: rep.undecided("%s: %s"%(fn["path"],r.err)); continue
        for x,v in r.out:
            v=r.I.norm(v,x)
            if type(v) is T and x.iv(v)==(0,0): rep.ok("%s (mode None): no carry"%fn["path"])
            else: rep.bad("%s | carry"%fn["path"],"%s may carry out of the mantissa with the mode None"%fn["path"])
def convert(rep,P):
    """number-level error -> special value"""
    k=0
    for path,fs in P.bypath.items():
        for fn in fs:
            if not fn["local"] or P.tys(fn["locals"][0])!="ext::BigFloat": continue
            ar=[i for i in range(fn["argc"]) if P.tys(fn["locals"][i+1]).startswith("std::result::Result<num::BigFloatNumber")]
            if len(ar)!=1: continue
            k+=1; rep.unit(path)
            tres=fn["locals"][ar[0]+1]
            bools=[i for i in range(fn["argc"]) if P.tys(fn["locals"][i+1])=="bool"]
            names=[v["n"] for v in P.ty[P.tyid("defs::Error")]["variants"]]
            for ei,en in enumerate(names):
                for s in((0,1) if en=="ExponentOverflow" else (None,)):
                    for z in(0,1):
                        for ss in(0,1):
                            I=CI(P,root=fn["id"],ext=True); st=State()
                            e=A(I.terr,ei,(A(I.tsign,s,()),) if s is not None else ())
                            def hk(i,nm,ty,st):
                                if i==ar[0]: return A(tres,1,(e,))
                                if bools and i==bools[0]: return K(z)
                                if len(bools)>1 and i==bools[1]: return K(ss)
                                return None
                            args=mkargs(I,st,fn,hook=hk)
                            try: outs=I.run(fn["id"],args,st)
                            except Abort as x: rep.undecided("%s: %s"%(path,x)); continue
                            got=set()
                            for x,v in outs: got|=tok(I,x,v,P)
                            if en=="ExponentOverflow": exp={"+Inf" if s else "-Inf"}
                            elif en=="DivisionByZero": exp=None if z else {"+Inf" if ss else "-Inf"}
                            else: exp={"NaN:err%d"%ei}
                            lab="%s%s, dividend %szero, signs %s"%(en,"" if s is None else "(+)" if s else "(-)","" if z else "not ","equal" if ss else "different")
                            if len(bools)<2 and en=="DivisionByZero": continue
                            good=all(t.startswith("NaN") for t in got) if exp is None else got==exp
                            if good and got: rep.ok("%s: %s -> %s"%(path,lab,", ".join(sorted(got))))
                            else: rep.bad("%s | %s"%(path,lab),"%s turns %s into %s"%(path,lab,", ".join(sorted(got)) or "nothing"))
    rep.count("error_conversions",k)
    if k<1: rep.note("no single function converts errors to special values; the conversion is covered where the operations inline it")
